// nothing has to be built: checks that the tools are there
import { execFileSync } from 'node:child_process'
for (const [t, a] of [['z3-new', ['--version']], ['cvc5', ['--version']]]) console.log(execFileSync(t, a, { encoding: 'utf8' }).split('\n')[0])

// Stand-in for the library in concrete runs: the operating system is an input.
export const os = __page.os
export default { os }

// The assumed contract of the library for proofs: errors carry their message, the module and the cause they are given.
export class IsoError extends Error {
	constructor(message, options) {
		super(message)
		this.name = this.constructor.name
		this.cause = options?.cause ? options.cause : undefined
	}
}
export class ModuleError extends IsoError {
	constructor(module, message, options) {
		super(message, options)
		this.module = module
	}
}

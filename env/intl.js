// Stand-in for the library in concrete runs: an intl object is made of a configuration and a cache.
export const createIntl = (config, cache) => ({ config, cache })
export const createIntlCache = () => ({ cache: true })

package licensecheck

// The reference is always given its license list.
var builtinLREs, builtinURLs []License

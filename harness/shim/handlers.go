package zipkinproxy

// A door for the conformance harness in package verifh.  This file reaches the
// build only through go's -overlay flag.

var VerifHandleSpans = handleSpans
var VerifHandleGzip = handleGzipRequestBody

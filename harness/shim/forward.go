package zipkinproxy

import "github.com/flachnetz/dd-zipkin-proxy/proxy"

// A door for the conformance harness in package verifh.  This file reaches the
// build only through go's -overlay flag.

func VerifForward(source <-chan proxy.Trace, targets []chan<- proxy.Trace, converter func(proxy.Span) (proxy.Span, error)) {
	forwardSpansToChannels(source, targets, converter)
}

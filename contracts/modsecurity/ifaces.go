package modsecurity

// A transformation is a stateless function of its input.
//@ iface Trans.Trans(t, tr, s) (r)
//@ prop C02 C08/frame
//@ conform
//@ pureuf
//@ anyloop
//@ modifies nothing

// An operator decides by its configuration and the value alone.
//@ iface Operator.Match(o, tr, s) (r)
//@ prop C03 C08/frame
//@ conform
//@ pureuf
//@ anyloop
//@ modifies nothing

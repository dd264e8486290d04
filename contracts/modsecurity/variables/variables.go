package variables

//@ protected variables\.(filter|merger|CountVariable|Variable[A-Za-z]*)\..*
//@ nonnil variables\.(CountVariable|Variable[A-Za-z]*)\.(Variable|filter|merger)
//@ nonnil \[\]\*regexp\.Regexp box.\*multipart\.Form

//@ func requestBodyParse(tr, kinds) (kind, parsed)
//@ prop C06 C08
//@ use
//@ anyloop
//@ requires tr != nil && modsecurity.SpecHeld(tr)
//@ modifies anything
//@ writes modsecurity\.Transaction\.Abort modsecurity\.Transaction\.intervention modsecurity\.Intervention\..*
//@ ensures modsecurity.SpecHeld(tr)

//@ pool an abort is held
//@ in Fetch requestBodyParse
//@ vars t *modsecurity.Transaction
//@ inv modsecurity.SpecHeld(t)

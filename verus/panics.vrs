// a call that does not return: contracts of functions that are documented to panic speak about their returns
#[verifier::external_body]
pub fn vx_panic() -> (r: !) { panic!() }
#[verifier::external_body]
pub fn vx_unreachable() -> (r: !) requires false { panic!() }

"""No panic: for the functions under no written contract the precondition is `true` (plus the type invariants) and the only
obligation is that no assertion, overflow check, index, unwrap, RefCell borrow or panicking call of the function's MIR is reached.
The ones the prover discharges on the committed tree are listed in baseline/; the list is verified again on every run."""
from specs import SWEEPS

LOADERS = ("bladeink::json::", "bladeink::<impl json")


def loader(n):
    return n.startswith("bladeink::json") or "json_" in n or "::load_" in n or "::new_from_" in n or "from_json" in n


SWEEPS["C04"] = [("bladeink", lambda n: not loader(n) and "::tests::" not in n)]
SWEEPS["C15"] = [("bladeink", loader)]
SWEEPS["C20"] = [("rinklecate", lambda n: "::tests::" not in n)]
from specs import LIMIT
LIMIT.update({"C04": 260, "C15": 200})

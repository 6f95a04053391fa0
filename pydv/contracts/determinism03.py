"""C03: no result depends on the clock, on random numbers, on addresses, on shared state; where a map is gone through, a contract of C03
says what comes out, and the model of the iteration leaves the order open."""
from specs import custom, BY_NAME, CUSTOM, CUSTOM_PROPS

L = "bladeink::ink_list::InkList::"
GONE_THROUGH = [L + x for x in ("from_other_list", "union", "without", "intersect", "has", "contains", "get_max_item", "get_min_item", "get_all", "inverse")] + [
    "<bladeink::ink_list::InkList as std::cmp::PartialEq>::eq", "<ink_list::InkList as std::cmp::PartialEq>::eq",
    "bladeink::list_definition::ListDefinition::get_items", "bladeink::list_definition::ListDefinition::get_item_with_value",
    "bladeink::story_state::StoryState::apply_any_patch", "bladeink::variables_state::VariablesState::apply_patch",
    "bladeink::variables_state::VariablesState::complete_variable_observation", "bladeink::variables_state::VariablesState::snapshot_default_globals",
    "bladeink::native_function_call::NativeFunctionCall::call_list_increment_operation", "bladeink::container::Container::count_content"]

for (_cr, _n), _c in BY_NAME.items():
    if _n.split("@")[0] in GONE_THROUGH and "C03" not in _c.props and not _c.assume_only:
        _c.props = list(_c.props) + ["C03"]
PROVED = {n.split("@")[0] for (cr, n), c in BY_NAME.items() if "C03" in c.props and not c.assume_only} | {"<bladeink::ink_list::InkList as std::cmp::PartialEq>::eq"}


@custom("determinism of the runtime", ["C03"])
def rt(db, job):
    import determinism
    r = determinism.job(db, PROVED)
    r["job"] = job[:4]
    return r


@custom("determinism of the compiler", ["C03"], crate="bladeink_compiler")
def co(db, job):
    import determinism
    r = determinism.job(db, set())
    r["job"] = job[:4]
    return r

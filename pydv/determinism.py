"""C03: what but the program, the seed and the calls of the host could a result depend on? Read off the MIR: every function of another crate that
is called on any way from the runtime (or the compiler), against the list of those whose result is not determined by their arguments."""
import re

SOURCES = {
    "clock": r"(^|::)(Instant|SystemTime)(::<[^>]*>)?::(now|elapsed)$|web_time::.*::(now|elapsed)$",
    "random numbers": r"^rand::(rng|random|thread_rng|random_range|random_bool|rngs::.*from_os_rng|make_rng)|getrandom|from_entropy|from_os_rng|RandomState::new|fastrand|ThreadRng::default|OsRng|SysRng",
    "environment": r"^std::(env|process|fs|net|thread|io::stdin)::",
    "shared state": r"OnceLock|LazyLock|LocalKey|sync::atomic|Mutex|RwLock",
    "addresses": r"::(addr|expose_provenance|addr_of)$|fmt::Pointer|fmt::rt::Argument::.*new_pointer",
}
# the seed of a new story (the host may read and set it), and the stopwatch of a time-limited continue
ALLOWED = {
    "bladeink": {"random numbers": ("story_state::StoryState::new",), "clock": ("story::Story::continue_internal",)},
    "bladeink_compiler": {"environment": (), },
}
UNORDERED = re.compile(r"(HashMap|HashSet)(::)?<.*>(::| as .*IntoIterator>::)(iter|iter_mut|keys|values|values_mut|into_keys|into_values|into_iter|drain|retain|extract_if)$")


def calls(f):
    for b in f.blocks:
        c = b["t"][1] if b["t"][0] == "call" else None
        if isinstance(c, dict) and not c.get("local"):
            yield c.get("rn") or c["u"], c["u"]


def job(db, proved):
    """proved: functions that go through a map or a set and whose contract says what comes out, whatever the order"""
    import time
    t0 = time.time()
    pre = db.crate + "::"
    found = {k: {} for k in SOURCES}
    sites = {}
    for f in db.fns.values():
        if not f.local or "::tests::" in f.name:
            continue
        own = f.name.split("::{closure")[0]
        for n, u in calls(f):
            for k, rx in SOURCES.items():
                if re.search(rx, n) or re.search(rx, u):
                    found[k].setdefault(own, n)
            if UNORDERED.search(n):
                sites.setdefault(own, n)
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "cast" and "Expose" in str(s[2][1]):
                    found["addresses"].setdefault(own, "pointer to integer")
    obs = []

    def ob(n, bad, status, goal):
        obs.append({"n": n, "s": status if bad else "discharged", "k": 1, "t": 0, "d": {"goal": goal, "reason": str(bad)[:500]} if bad else None})
    for k in SOURCES:
        ok = tuple(pre + x for x in ALLOWED.get(db.crate, {}).get(k, ()))
        bad = {f.replace(pre, ""): n for f, n in found[k].items() if f not in ok}
        ob("%s::no source of %s" % (db.crate, k), bad, "failed", "no call of it on any way")
    for f, n in sorted(sites.items()):
        ob("%s::order of the map does not matter" % f.replace(pre, ""), [] if f in proved else "no contract says so", "undecided", n)
    return {"obs": obs, "wall": time.time() - t0, "paths": 0}

"""C18: whatever the story owns goes when the story goes."""
from specs import custom


@custom("ownership", ["C18"])
def own(db, job):
    import ownership
    r = ownership.job(db)
    r["job"] = job[:4]
    return r

"""C19: builds /verif/web (the repository's binding against stand-ins for the page) and runs it."""


def build(c):
    rc, out = c.cargo(c.VERIF + "/web", ["siaweb"], rustflags="--cfg sia_monitor")
    if rc != 0:
        raise c.NoVerdict("the binding does not build against the stand-ins\n" + c.errors_of(out))
    return c.BUILD + "/release/siaweb"


def run(c, cid, a):
    return c.run_siavp(cid, a, binary=build(c))

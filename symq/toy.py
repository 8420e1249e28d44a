"""Self-test of the engine on programs whose answer is known."""
import engine


def _good(ctx):
    a, b = ctx.real('a', ge=0), ctx.real('b', ge=0)
    xs = sorted([a, b, a + b])
    ctx.check_that(xs[0] <= xs[1], 'sorted', ('T',))
    ctx.check_that(xs[2] == a + b, 'the sum is largest', ('T',))
    n = ctx.int('n', ge=0, le=3)
    k = 0
    while k < n:
        k += 1
    ctx.check_that(k == n, 'counts', ('T',))


def _bad(ctx):
    a = ctx.int('a', ge=0, le=100)
    b = a * a
    if b > 50:
        if a % 7 == 3:
            ctx.check_that(a != 73, 'not 73', ('T',))


def run():
    for f, n in ((_good, 0), (_bad, 1)):
        c = engine.SymContext(f, {}, {'T'})
        c.explore()
        assert len(c.violations) == n, (f.__name__, c.violations)
        assert c.stats.errors == 0
    assert c.violations[0].values, c.violations[0].as_dict()

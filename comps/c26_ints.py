"""C26: checked integer arithmetic."""
from harness.calls import small_model, judge, line
from harness.core import split_runs


def fits(v, s, b):
    return -(1 << (b - 1)) <= v < (1 << (b - 1)) if s else 0 <= v < (1 << b)


def word(v):
    return [1 if v < 0 else 0] + list(abs(v).to_bytes(8, "big"))


def exact(op, x, y):
    if op == "div":
        return None if y == 0 else (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)
    return x + y if op == "add" else x - y if op == "sub" else x * y


def operand(r, s, b):
    k = r.random()
    if k < 0.25:
        v = r.choice([0, 1, 2, 3, (1 << b) - 1, (1 << (b - 1)) - 1, 1 << (b - 1), (1 << (b // 2)), (1 << (b // 2)) - 1])
    else:
        v = r.getrandbits(r.randint(1, b))
    if s:
        v = -v if r.random() < 0.5 else v
        v = max(-(1 << (b - 1)), min((1 << (b - 1)) - 1, v))
    return v


def call(r):
    op, s, b = r.choice(["add", "sub", "mul", "div"]), r.randint(0, 1), r.choice([8, 16, 32, 64])
    if b == 64 and op in ("mul", "div"):
        op = "add"
    x, y = operand(r, s, b), operand(r, s, b)
    if r.random() < 0.4:                          # about where the type ends
        end = r.choice([(1 << (b - 1)) - 1, -(1 << (b - 1))] if s else [(1 << b) - 1, 0]) + r.choice([-1, 0, 1, 1])
        if op == "add":
            y = end - x
        elif op == "sub":
            y = x - end
        elif op == "mul" and x:
            y = exact("div", end, x) + r.choice([-1, 0, 0, 1])
        if not fits(y, s, b):
            y = operand(r, s, b)
    return [op, s, b, x, y]


def check(c):
    c.model_check("Ints", "IntsMC.cfg")
    r = c.rng
    exe = c.build_driver("ints", extra=["-DZT_LOG_FUNCTION=__FUNCTION__", "-Wl,--wrap=_zt_log_assertion"])
    small_model(c, "Ints", exe)
    calls = [call(r) for _ in range(c.pick(6000, 100000))]
    judge(c, "Ints", exe, [[a[0], a[1], a[2], word(a[3]), word(a[4])] for a in calls], c.pick(8, 40), "random operands")
    # with assertions compiled out, what a type can hold must be right all the same
    fine = [a for a in calls if exact(a[0], a[3], a[4]) is not None and fits(exact(a[0], a[3], a[4]), a[1], a[2])]
    exe = c.build_driver("ints", "plain", extra=["-DNDEBUG", "-DZT_LOG_FUNCTION=__FUNCTION__", "-Wl,--wrap=_zt_log_assertion"])
    judge(c, "Ints", exe, [[a[0], a[1], a[2], word(a[3]), word(a[4])] for a in fine[:c.pick(1500, 30000)]], c.pick(4, 20), "without assertions")

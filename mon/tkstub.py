"""A stand-in for tkinter that records what is drawn by whom. Install before pyactr is imported."""
import sys, types, threading, random, time

TEXT = {"activefill", "activestipple", "anchor", "angle", "disabledfill", "disabledstipple", "fill", "font", "justify", "offset", "state", "stipple", "tags", "tag", "text", "underline", "width"}
SHAPE = {p + o for o in ("dash", "fill", "outline", "outlinestipple", "stipple", "width") for p in ("", "active", "disabled")} | {"dashoffset", "offset", "outlineoffset", "state", "tags", "tag", "start", "extent", "style"}

class TclError(Exception):
    pass

class World:
    """one run: log of (what, data); what in {call, op, tick, step}"""
    def __init__(self, rng):
        self.rng = rng; self.log = []; self.threads = set(); self.owner = threading.get_ident(); self.canvases = []; self.stalled = False; self.lag = rng.choice([0, 0, .0002, .001])
    def call(self):
        self.threads.add(threading.get_ident())
        if self.lag and self.rng.random() < .1: time.sleep(self.rng.random() * self.lag)
    def op(self, canvas):
        self.log.append(("op", canvas.state()))
world = None
alive = lambda: False          # is a simulation thread alive? (set by the check)

class Widget:
    def __init__(self, *a, **k): world.call()
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        def f(*a, **k): world.call()
        return f

class Tk(Widget):
    def __init__(self, *a, **k):
        super().__init__(); self.__dict__.update(todo=[], ended=False, n=0)
    def after(self, ms, func=None, *args):
        world.call(); self.n += 1; self.todo.append((self.n, func, args)); return f"after#{self.n}"
    def after_idle(self, func, *args): return self.after(0, func, *args)
    def after_cancel(self, i):
        world.call(); self.__dict__["todo"] = [t for t in self.todo if f"after#{t[0]}" != i]
    def quit(self): world.call(); self.__dict__["ended"] = True
    destroy = quit
    def mainloop(self, n=0):
        world.call(); dead = 0
        while not self.ended and self.todo:
            _, f, args = self.todo.pop(0)
            if world.lag and world.rng.random() < .3: time.sleep(world.rng.random() * world.lag)
            else: time.sleep(0)
            dead = dead + 1 if not alive() else 0
            if dead > 60: world.stalled = True; return      # nothing runs any more, but the window stays
            world.log.append(("tick", None))
            f(*args)

class Canvas(Widget):
    def __init__(self, master=None, cnf={}, **k):
        super().__init__(); self.__dict__.update(items={}, n=0, opts=dict(k)); world.canvases.append(self)
    def _make(self, kind, ok, args, kw):
        world.call()
        c = []
        for a in args: c += list(a) if isinstance(a, (list, tuple)) else [a]
        if isinstance(c[-1], dict): kw = {**c.pop(), **kw}
        need = 2 if kind == "text" else 4
        if len(c) != need: raise TclError(f"wrong # coordinates: expected {need}, got {len(c)}")
        c = [float(x) for x in c]
        self.n += 1; i = self.n
        self.items[i] = {"kind": kind, "xy": c, "ok": ok, "opt": {}}
        try: self._conf(i, kw)
        except TclError: del self.items[i]; raise
        world.op(self); return i
    def _conf(self, i, kw):
        it = self.items[i]
        for k, v in kw.items():
            k = k.rstrip("_")
            if k not in it["ok"]: raise TclError(f'unknown option "-{k}"')
            if k in ("tags", "tag"): v = tuple(v) if isinstance(v, (list, tuple)) else tuple(str(v).split()); k = "tags"
            it["opt"][k] = v
    def create_text(self, *a, **k): return self._make("text", TEXT, a, k)
    def create_oval(self, *a, **k): return self._make("oval", SHAPE, a, k)
    def create_rectangle(self, *a, **k): return self._make("rectangle", SHAPE, a, k)
    def _find(self, what):
        if what == "all": return sorted(self.items)
        if isinstance(what, int) or str(what).isdigit(): return [int(what)] if int(what) in self.items else []
        return sorted(i for i, it in self.items.items() if what in it["opt"].get("tags", ()))
    def find_withtag(self, tag): world.call(); return tuple(self._find(tag))
    def find_all(self): world.call(); return tuple(sorted(self.items))
    def delete(self, *what):
        world.call()
        for w in what:
            for i in self._find(w): del self.items[i]
        world.op(self)
    def itemconfigure(self, what, cnf=None, **k):
        world.call(); k = {**(cnf or {}), **k}
        if not k:
            f = self._find(what); return {o: (o, "", "", "", self.items[f[0]]["opt"].get(o, "")) for o in self.items[f[0]]["ok"]} if f else {}
        for i in self._find(what): self._conf(i, k)
        world.op(self)
    itemconfig = itemconfigure
    def itemcget(self, what, option):
        world.call(); f = self._find(what); return self.items[f[0]]["opt"].get(option, "") if f else ""
    def coords(self, what, *xy):
        world.call(); f = self._find(what)
        if not xy: return list(self.items[f[0]]["xy"]) if f else []
        c = []
        for a in xy: c += list(a) if isinstance(a, (list, tuple)) else [a]
        for i in f[:1]: self.items[i]["xy"] = [float(x) for x in c]
        world.op(self)
    def state(self):
        """(texts on display, ovals)"""
        return (tuple(sorted((str(it["opt"].get("text", "")), tuple(it["xy"])) for it in self.items.values() if it["kind"] == "text" and it["opt"].get("state") != "hidden")),
                tuple(sorted(((it["xy"][0] + it["xy"][2]) / 2, (it["xy"][1] + it["xy"][3]) / 2) for it in self.items.values() if it["kind"] != "text" and it["opt"].get("state") != "hidden")))

def install():
    m = types.ModuleType("tkinter")
    m.Tk, m.Canvas, m.TclError, m.Widget, m.Frame, m.Label, m.Toplevel = Tk, Canvas, TclError, Widget, type("Frame", (Widget,), {}), type("Label", (Widget,), {}), type("Toplevel", (Tk,), {})
    for k in "LEFT RIGHT TOP BOTTOM BOTH X Y N S E W NW NE SW SE CENTER END ALL".split(): setattr(m, k, k.lower())
    m.TkVersion = 8.6
    sys.modules["tkinter"] = m
    return m

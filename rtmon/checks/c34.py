"""C34 the lens viewer: every lens of the catalogues is offered, and the one that is chosen is shown"""
import inspect
import re
import sys
import types
import warnings

from rtmon import model
from rtmon.checks import c21, c23, c31


class Screen:
    """What the viewer made: menus, texts, canvases (there is no screen: the widgets are stand-ins that record)"""
    menus, canvases, errors = [], [], []

    @classmethod
    def clear(cls):
        cls.menus, cls.canvases, cls.errors = [], [], []


class Widget:
    def __init__(self, master=None, *a, **k):
        self.master, self.options = master, dict(k)
        self.placed, self.gone = 0, False

    def __getitem__(self, key):
        return self.options.get(key)

    def __setitem__(self, key, value):
        self.options[key] = value

    def configure(self, *a, **k):
        self.options.update(k)
    config = configure

    def grid(self, *a, **k):
        self.placed += 1
    pack = place = grid

    def destroy(self):
        self.gone = True
    grid_forget = grid_remove = pack_forget = place_forget = destroy

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Variable:
    def __init__(self, master=None, value=None, name=None):
        self.value, self.calls = "" if value is None else value, []

    def get(self):
        return self.value

    def set(self, value):
        self.value = value
        for f in self.calls:
            f("", "", "w")

    def trace_add(self, mode, call):
        self.calls.append(call)


class Menu(Widget):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.items = []
        Screen.menus.append(self)

    def add_command(self, *a, **k):
        self.items.append((k.get("label"), k.get("command")))

    def add(self, kind, *a, **k):
        if kind == "command":
            self.add_command(**k)

    def delete(self, first, last=None):
        if last is None:
            del self.items[first]
        else:
            self.items = self.items[:first]


class Button(Widget):
    buttons = []

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        Button.buttons.append(self)


def standIns():
    """Modules for what cannot be loaded without a screen"""
    tk, ttk, box = (types.ModuleType(n) for n in ("tkinter", "tkinter.ttk", "tkinter.messagebox"))
    for n in ("Tk", "Toplevel", "Frame", "Label", "Entry", "Button", "Canvas", "Text", "Scrollbar", "Listbox", "LabelFrame", "PanedWindow", "Scale",
              "Checkbutton", "Radiobutton", "Spinbox", "Notebook", "Combobox", "Treeview", "Separator", "Progressbar", "Style", "Message"):
        c = type(n, (Widget,), {})
        setattr(tk, n, c)
        setattr(ttk, n, c)
    for n in ("StringVar", "IntVar", "DoubleVar", "BooleanVar", "Variable"):
        setattr(tk, n, type(n, (Variable,), {}))
    tk.Menu = Menu
    tk.Menubutton = ttk.Menubutton = Button
    tk.TclError = type("TclError", (Exception,), {})
    tk.TkVersion = 8.6
    for n in ("LEFT", "RIGHT", "TOP", "BOTTOM", "BOTH", "END", "N", "S", "E", "W", "X", "Y", "CENTER", "INSERT"):
        setattr(tk, n, n.lower())
    tk.mainloop = lambda *a: None

    def told(*a, **k):
        Screen.errors.append(a)
    for n in ("showerror", "showwarning", "showinfo", "askokcancel", "askyesno"):
        setattr(box, n, told)
    tk.ttk, tk.messagebox, tk.__path__ = ttk, box, []
    from matplotlib.backends.backend_agg import FigureCanvasAgg

    class FigureCanvasTkAgg(FigureCanvasAgg):
        def __init__(self, figure=None, master=None, **k):
            super().__init__(figure)
            self.widget = Widget(master)
            Screen.canvases.append(self)

        def get_tk_widget(self):
            return self.widget

    backend = types.ModuleType("matplotlib.backends.backend_tkagg")
    backend.FigureCanvasTkAgg, backend.FigureCanvasTk = FigureCanvasTkAgg, FigureCanvasTkAgg
    backend.NavigationToolbar2Tk = type("NavigationToolbar2Tk", (Widget,), {})
    return {"tkinter": tk, "tkinter.ttk": ttk, "tkinter.messagebox": box, "matplotlib.backends.backend_tkagg": backend}


def setup(ctx):
    import raytracing as rt
    import raytracing.thorlabs    # noqa
    import raytracing.eo          # noqa
    sys.modules.update(standIns())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import raytracing.lensViewer as viewer
        ctx.viewer = viewer
        # every lens of the two makers
        ctx.lenses = {}
        from raytracing.specialtylenses import AchromatDoubletLens, SingletLens
        for m in (rt.thorlabs, rt.eo):
            for name, c in sorted(inspect.getmembers(m, inspect.isclass)):
                if c.__module__ == m.__name__ and issubclass(c, (AchromatDoubletLens, SingletLens)):
                    e = c()
                    ctx.lenses.setdefault("%s [f=%.1f mm]" % (e.label, -1 / e.C), []).append(c)


def shown():
    """The figure on the screen"""
    return [c for c in Screen.canvases if c.widget.placed and not c.widget.gone][-1].figure


def texts():
    out = [b.options["textvariable"].get() for b in Button.buttons if b.options.get("textvariable") is not None]
    return out


def case(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with c21.Shot() as shot:
            body(ctx, ctx.rng, shot)


def body(ctx, rng, shot):
    import raytracing as rt
    steps = rng.randint(1, 6)
    ctx.input("a viewer, %d choices" % steps)
    Screen.clear()
    del Button.buttons[:]
    app = ctx.viewer.OpticalComponentViewer()
    ctx.true(len([m for m in Screen.menus if m.items]) == 1, "menu", lambda: "%d menus" % len(Screen.menus))
    items = [m for m in Screen.menus if m.items][0].items
    names = [n for n, _ in items]
    ctx.observe("lenses offered", len(names))
    expected = list(ctx.lenses)
    if not ctx.true(sorted(names) == sorted(expected), "offered",
             lambda: "missing %s, unexpected %s" % (sorted(set(expected) - set(names))[:5], sorted(x for x in set(names) if x not in ctx.lenses or names.count(x) > 1)[:5])):
        return
    told = []
    for step in range(steps):
        if told and rng.random() < 0.2:
            i = told[-1] if rng.random() < 0.5 else rng.choice(told)
            ctx.observe("chosen again")
        elif rng.random() < 0.1:
            i = rng.choice((0, len(items) - 1))
        else:
            i = rng.randrange(len(items))
        told.append(i)
        name, command = items[i]
        ctx.input("a viewer: %s" % ", then ".join(names[j] for j in told))
        command()
        ctx.observe("lenses chosen")
        ctx.true(not Screen.errors, "error", lambda: "told %s" % (Screen.errors[:1],))
        tt = texts()
        ctx.true(name in tt, "text", lambda: "the texts are %s, chosen %s" % (tt, name))
        figure = shown()
        ctx.true(figure is app.figure, "figure", "the figure of the viewer is not the one on the screen")
        ax = figure.axes[0]
        # a lens of its own, that no viewer has seen
        e = ctx.lenses[name][0]()
        leaf = model.Leaf(e.A, e.B, e.C, e.D, L=e.L, nf=e.frontIndex, nb=e.backIndex, fv=e.frontVertex, bv=e.backVertex)
        label = e.label
        ctx.true(label in c23.texts(ax), "label", lambda: "no label %r among %s" % (label, c23.texts(ax)))
        c23.cardinals(ctx, ax, e, leaf, rt)
        Rs = [x.R for x in e.elements if x.L == 0]
        c31.surfacesDrawn(ctx, ax, 0.0, Rs, [x.L for x in e.elements if x.L > 0], e.largestDiameter / 2, name)
        ctx.observe("figures read")
    # nothing of what is offered has changed
    ctx.true([n for n, _ in [m for m in Screen.menus if m.items][0].items] == names, "kept", "the menu has changed")
    if len(told) > 1:
        ctx.observe("several choices")
    ctx.nontrivial(tuple(told))

"""Operation menus: pairs (statement on the library, statement on the reference model)."""
def pl_updates(p='p', els=('A', 'B', 'A2'), idx=range(-4, 5), cls='plist', tcls='tlist', lite=False):
    """Every update a persistent list has; the variable is rebound to the new version."""
    o = []
    x0 = els[-1]
    for x in els:
        o.append((f"{p} = {p}.append({x})", f"{p}.append({x})"))
        o.append((f"{p} = {p}.prepend({x})", f"{p}.insert(0, {x})"))
        o.append((f"{p} = {p}.remove({x.replace('L(', '(')})", f"{p}.remove({x})"))
    for i in idx:
        for x in (els[:1] if lite else els[:2]):
            o.append((f"{p} = {p}.set({i}, {x})", f"{p}[{i}] = {x}"))
            o.append((f"{p} = {p}.insert({i}, {x})", f"{p}.insert({i}, {x})"))
        o.append((f"{p} = {p}.delete({i})", f"del {p}[{i}]"))
        o.append((f"{p} = {p}.drop({i})", f"l_drop({p}, {i})"))
        o.append((f"(r, {p}) = {p}.pop({i})", f"r = {p}.pop({i})"))
    o += [
        (f"{p} = {p}.delete()", f"del {p}[-1]"),
        (f"{p} = {p}.drop()", f"l_drop({p})"),
        (f"(r, {p}) = {p}.pop()", f"r = {p}.pop()"),
        (f"{p} = {p}.sort()", f"{p}[:] = sorted({p})"),
        (f"{p} = {p}.sort(reverse=True)", f"{p}[:] = sorted({p}, reverse=True)"),
        (f"{p} = {p}.sort(key=negkey)", f"{p}[:] = sorted({p}, key=negkey)"),
        (f"{p} = {p}.reverse()", f"{p}.reverse()"),
        (f"{p} = {p}.clear()", f"{p}.clear()"),
        (f"{p} = {p}.extend([{els[0]}, {els[1]}])", f"{p}.extend([{els[0]}, {els[1]}])"),
        (f"{p} = {p}.extend(())", f"{p}.extend(())"),
        (f"{p} = {p}.extend(gen([{x0}, {els[1]}]))", f"{p}.extend([{x0}, {els[1]}])"),
        (f"{p} = {p}.extend({p})", f"{p}.extend({p})"),
        (f"{p} = {p}.extend({p}.transient())", f"{p}.extend({p})"),
        (f"{p} = {p}.extend(5)", f"{p}.extend(5)"),
        (f"{p} = {p} + [{x0}]", f"{p} = {p} + [{x0}]"),
        (f"{p} = [{els[1]}, {x0}] + {p}", f"{p} = [{els[1]}, {x0}] + {p}"),
        (f"{p} = [{els[1]}, {x0}, {els[0]}] + {p} + [{x0}, {els[0]}, {els[1]}]", f"{p} = [{els[1]}, {x0}, {els[0]}] + {p} + [{x0}, {els[0]}, {els[1]}]"),
        (f"{p} = {p}.extend([{els[0]}, {x0}, {els[0]}, {els[1]}])", f"{p}.extend([{els[0]}, {x0}, {els[0]}, {els[1]}])"),
        (f"{p} = [] + {p} + []", f"{p} = {p} + []"),
        (f"{p} = {p} + {p}", f"{p} = {p} + {p}"),
        (f"{p} = {cls}([{els[1]}]) + {p}", f"{p} = [{els[1]}] + {p}"),
        (f"{p} = {cls}() + {p} + {cls}()", f"{p} = {p} + []"),
        (f"{p} = {p} + ({els[0]},)", f"{p} = {p} + ({els[0]},)"),
        (f"{p} += [{els[1]}]", f"{p} = {p} + [{els[1]}]"),
        (f"{p} = {p} * 2", f"{p} = {p} * 2"),
        (f"{p} = 3 * {p}", f"{p} = 3 * {p}"),
        (f"{p} *= 2", f"{p} = {p} * 2"),
        (f"{p} = {p} * 0", f"{p} = {p} * 0"),
        (f"{p} = {p} * -1", f"{p} = {p} * -1"),
        (f"{p} = {p} * 1", f"{p} = {p} * 1"),
    ]
    for s in ("1:", ":-1", "::-1", "1:3", "::2", "-2:", "::-2", "9:", "2:1", "1:-1"):
        o.append((f"{p} = {p}[{s}]", f"{p} = {p}[{s}]"))
    o += [
        (f"{p} = {p}.transient().persistent()", f"ok()"),
        (f"{p} = {cls}({p}.transient())", f"ok()"),
        (f"{p} = {cls}({tcls}({p}))", f"ok()"),
        (f"{p} = {cls}(list({p}))", f"ok()"),
        (f"{p} = {p}.copy()", f"ok()"),
        (f"_t = {p}.transient(); _t.append({els[0]}); _t.prepend({els[1]}); {p} = _t.persistent(); del _t",
         f"{p}.append({els[0]}); {p}.insert(0, {els[1]})"),
        (f"_t = {p}.transient(); _t[0] = {x0}; {p} = _t.persistent(); del _t", f"{p}[0] = {x0}"),
        (f"_t = {p}.transient(); _t.insert(1, {x0}); del _t[-1]; {p} = _t.persistent(); del _t", f"{p}.insert(1, {x0}); del {p}[-1]"),
        (f"_t = {p}.transient(); _t.reverse(); {p} = _t.persistent(); del _t", f"{p}.reverse()"),
        (f"_t = {p}.transient(); _t.append({x0}); _t.pop(); {p} = _t.persistent(); del _t", f"ok()"),
        (f"_t = {p}.transient(); del _t[0]; {p} = _t.persistent(); del _t", f"del {p}[0]"),
    ]
    return o
def tl_updates(t='t', els=('A', 'B', 'A2'), idx=range(-4, 5), lite=False):
    """Every in-place edit of a transient list."""
    o = []
    x0 = els[-1]
    for x in els:
        o.append((f"r = {t}.append({x})", f"r = {t}.append({x})"))
        o.append((f"r = {t}.prepend({x})", f"r = {t}.insert(0, {x})"))
        o.append((f"r = {t}.remove({x.replace('L(', '(')})", f"r = {t}.remove({x})"))
    for i in idx:
        for x in (els[:1] if lite else els[:2]):
            o.append((f"{t}[{i}] = {x}", f"{t}[{i}] = {x}"))
            o.append((f"r = {t}.insert({i}, {x})", f"r = {t}.insert({i}, {x})"))
        o.append((f"del {t}[{i}]", f"del {t}[{i}]"))
        o.append((f"r = {t}.pop({i})", f"r = {t}.pop({i})"))
    o += [
        (f"r = {t}.pop()", f"r = {t}.pop()"),
        (f"r = {t}.sort()", f"{t}[:] = sorted({t}); r = None"),
        (f"r = {t}.sort(reverse=True)", f"{t}[:] = sorted({t}, reverse=True); r = None"),
        (f"r = {t}.sort(key=negkey)", f"{t}[:] = sorted({t}, key=negkey); r = None"),
        (f"r = {t}.reverse()", f"r = {t}.reverse()"),
        (f"r = {t}.clear()", f"r = {t}.clear()"),
        (f"r = {t}.extend([{els[0]}, {els[1]}])", f"r = {t}.extend([{els[0]}, {els[1]}])"),
        (f"r = {t}.extend(gen([{x0}]))", f"r = {t}.extend([{x0}])"),
        (f"r = {t}.extend(())", f"r = {t}.extend(())"),
        (f"r = {t}.extend({t})", f"r = {t}.extend({t})"),
        (f"r = {t}.extend({t}.persistent())", f"r = {t}.extend({t})"),
        (f"r = {t}.extend(5)", f"r = {t}.extend(5)"),
        (f"{t} += [{x0}, {els[1]}]", f"{t} += [{x0}, {els[1]}]"),
        (f"{t} += {t}", f"{t} += {t}"),
        (f"{t} += {t}.persistent()", f"{t} += {t}"),
        (f"{t} += []", f"{t} += []"),
        (f"{t} *= 2", f"{t} *= 2"),
        (f"{t} *= 3", f"{t} *= 3"),
        (f"{t} *= 1", f"{t} *= 1"),
        (f"{t} *= 0", f"{t} *= 0"),
        (f"{t} *= -1", f"{t} *= -1"),
        (f"{t} = {t} + [{els[1]}]", f"{t} = {t} + [{els[1]}]"),
        (f"{t} = [{x0}, {els[1]}] + {t}", f"{t} = [{x0}, {els[1]}] + {t}"),
        (f"{t} = {t} + {t}", f"{t} = {t} + {t}"),
        (f"{t} = [{x0}, {els[1]}, {els[0]}] + {t} + [{els[1]}, {els[0]}, {x0}]", f"{t} = [{x0}, {els[1]}, {els[0]}] + {t} + [{els[1]}, {els[0]}, {x0}]"),
        (f"{t}.extend([{x0}, {els[1]}, {x0}, {els[0]}])", f"{t}.extend([{x0}, {els[1]}, {x0}, {els[0]}])"),
        (f"{t} = {t} * 2", f"{t} = {t} * 2"),
        (f"{t} = 2 * {t}", f"{t} = 2 * {t}"),
        (f"{t} = {t} * 0", f"{t} = {t} * 0"),
        (f"r = {t} + ({x0},)", f"r = {t} + ({x0},)"),
        (f"{t} = {t}.copy()", f"{t} = {t}.copy()"),
        (f"{t} = {t}[1:]", f"{t} = {t}[1:]"),
        (f"{t} = {t}[::-1]", f"{t} = {t}[::-1]"),
        (f"{t} = {t}.persistent().transient()", f"{t} = {t}.copy()"),
        (f"{t} = type({t})({t})", f"{t} = {t}.copy()"),
    ]
    return o
def ps_updates(p='p', els=('A', 'B', 'C', 'D', 'A2'), cls='pset', tcls='tset'):
    o = []
    (a, b, c) = els[:3]
    for x in els:
        o += [(f"{p} = {p}.add({x})", f"{p}.add({x})"),
              (f"{p} = {p}.discard({x})", f"{p}.discard({x})"),
              (f"{p} = {p}.remove({x})", f"{p}.remove({x})")]
    o += [
        (f"(r, {p}) = {p}.pop()", f"r = take({p}, _r)"),
        (f"{p} = {p}.clear()", f"{p}.clear()"),
        (f"{p} = {p}.addall([{c}, {a}, {c}])", f"{p}.update([{c}, {a}, {c}])"),
        (f"{p} = {p}.addall(gen([{b}, {els[-1]}]))", f"{p}.update([{b}, {els[-1]}])"),
        (f"{p} = {p}.addall(())", f"ok()"),
        (f"{p} = {p}.addall({p})", f"ok()"),
        (f"{p} = {p}.discardall([{b}, {c}])", f"s_discardall({p}, [{b}, {c}])"),
        (f"{p} = {p}.discardall(gen([{els[-1]}]))", f"s_discardall({p}, [{els[-1]}])"),
        (f"{p} = {p}.discardall({p})", f"{p}.clear()"),
        (f"{p} = {p}.removeall([{a}, {b}])", f"s_removeall({p}, [{a}, {b}])"),
        (f"{p} = {p}.removeall(())", f"ok()"),
        (f"{p} = {p}.removeall({p})", f"{p}.clear()"),
        (f"{p} = {p}.difference({p})", f"{p}.clear()"),
        (f"{p} = {p}.union({p}, {p})", f"ok()"),
        (f"{p} = {p} ^ {p}", f"{p}.clear()"),
        (f"{p} = {p}.removeall([{c}, {c}])", f"s_removeall({p}, [{c}, {c}])"),
        (f"{p} = {p}.add(UH)", f"{p}.add(UH)"),
        (f"{p} = {p}.transient().persistent()", "ok()"),
        (f"{p} = {cls}({tcls}({p}))", "ok()"),
        (f"{p} = {cls}(list({p}))", "ok()"),
        (f"_t = {p}.transient(); _t.add({b}); _t.discard({a}); {p} = _t.persistent(); del _t", f"{p}.add({b}); {p}.discard({a})"),
        (f"_t = {p}.transient(); _t.discard({c}); _t.add({c}); {p} = _t.persistent(); del _t", f"{p}.discard({c}); {p}.add({c})"),
        (f"{p} = {p} | [{a}]", f"{p}.s() | [{a}]"),
    ]
    return o
def ts_updates(t='t', els=('A', 'B', 'C', 'D', 'A2'), lite=False):
    o = []
    (a, b, c) = els[:3]
    for x in els:
        o += [(f"r = {t}.add({x})", f"r = {t}.add({x})"),
              (f"r = {t}.discard({x})", f"r = {t}.discard({x})"),
              (f"r = {t}.remove({x})", f"r = {t}.remove({x})")]
    o += [
        (f"r = {t}.pop()", f"r = take({t}, _r)"),
        (f"r = {t}.clear()", f"r = {t}.clear()"),
        (f"{t}.update([{c}, {a}])", f"{t}.update([{c}, {a}])"),
        (f"{t}.update([{c}], gen([{b}, {els[-1]}]))", f"{t}.update([{c}]); {t}.update([{b}, {els[-1]}])"),
        (f"{t}.update()", f"ok()"),
        (f"{t}.addall([{b}, {c}])", f"{t}.update([{b}, {c}])"),
        (f"{t}.addall({t})", "ok()"),
        (f"{t}.discardall([{b}, {c}])", f"s_discardall({t}, [{b}, {c}])"),
        (f"{t}.discardall({t})", f"{t}.clear()"),
        (f"{t}.removeall([{a}, {b}])", f"s_removeall_t({t}, [{a}, {b}])"),
        (f"{t}.removeall({t})", f"{t}.clear()"),
        (f"{t}.removeall({t}.persistent())", f"{t}.clear()"),
        (f"{t}.update({t}, {t})", "ok()"),
        (f"{t}.intersection_update({t})", "ok()"),
        (f"{t}.symmetric_difference_update({t})", f"{t}.clear()"),
        (f"{t} |= {{{a}, {c}}}", f"{t}.update({{{a}, {c}}})"),
        (f"{t} |= pset([{c}, {els[-1]}])", f"{t}.update([{c}, {els[-1]}])"),
        (f"{t} |= {t}", "ok()"),
        (f"{t} &= {{{a}, {c}}}", f"s_iand({t}, [{a}, {c}])"),
        (f"{t} &= pset([{b}, {els[-1]}])", f"s_iand({t}, [{b}, {els[-1]}])"),
        (f"{t} &= {t}", "ok()"),
        (f"{t} -= {{{a}, {c}}}", f"s_discardall({t}, [{a}, {c}])"),
        (f"{t} -= tset([{b}])", f"s_discardall({t}, [{b}])"),
        (f"{t} -= {t}", f"{t}.clear()"),
        (f"{t} ^= pset([{a}, {c}])", f"s_ixor({t}, [{a}, {c}])"),
        (f"{t} ^= {{{els[-1]}}}", f"s_ixor({t}, [{els[-1]}])"),
        (f"{t} ^= {t}", f"{t}.clear()"),
        (f"{t}.intersection_update(pset([{a}, {b}]))", f"s_iand({t}, [{a}, {b}])"),
        (f"{t}.intersection_update(pset([{a}, {b}]), {{{b}, {c}}})", f"s_iand({t}, [{b}])"),
        (f"{t}.difference_update([{a}], [{c}])", f"s_discardall({t}, [{a}, {c}])"),
        (f"{t}.difference_update({t})", f"{t}.clear()"),
        (f"{t}.symmetric_difference_update(pset([{b}, {c}]))", f"s_ixor({t}, [{b}, {c}])"),
        (f"r = {t}.add(UH)", f"r = {t}.add(UH)"),
        (f"{t} = {t}.copy()", "ok()"),
        (f"{t} = {t}.persistent().transient()", "ok()"),
        (f"{t} = tset({t})", "ok()"),
    ]
    return o
def pd_updates(p='p', keys=('A', 'B', 'C', 'D', 'A2'), vals=('v1', 'v2'), cls='pdict', tcls='tdict'):
    o = []
    (a, b, c) = keys[:3]
    (v, w) = vals[:2]
    for k in keys:
        for x in vals:
            o.append((f"{p} = {p}.set({k}, {x})", f"{p}[{k}] = {x}"))
        o += [(f"{p} = {p}.drop({k})", f"d_drop({p}, {k})"),
              (f"{p} = {p}.delete({k})", f"d_delete({p}, {k})"),
              (f"(r, {p}) = {p}.pop({k})", f"r = {p}.pop({k})")]
    o += [
        (f"{p} = {p}.set({a}, v1b)", f"{p}[{a}] = v1b"),                  # equal to v1, another object
        (f"{p} = {p}.set({a}, {a})", f"{p}[{a}] = {a}"),                  # a value that is (or equals, or collides with) a key
        (f"{p} = {p}.set({b}, {keys[-1]})", f"{p}[{b}] = {keys[-1]}"),
        (f"(r, {p}) = {p}.pop({b}, v7)", f"r = {p}.pop({b}, v7)"),
        (f"(r, {p}) = {p}.pop({c}, None)", f"r = {p}.pop({c}, None)"),
        (f"{p}.pop({a}, 1, 2)", f"{{}}.pop({a}, 1, 2)"),
        (f"(r, {p}) = {p}.popitem()", f"r = takeitem({p}, _r)"),
        (f"{p} = {p}.setdefault({a}, v3)", f"{p}.setdefault({a}, v3)"),
        (f"{p} = {p}.setdefault({c})", f"{p}.setdefault({c})"),
        (f"{p} = {p}.update({{{c}: v4, {a}: v5}})", f"{p}.update({{{c}: v4, {a}: v5}})"),
        (f"{p} = {p}.update([({b}, v6)], pdict({{{keys[-1]}: v7}}), x={v})", f"{p}.update([({b}, v6)]); {p}.update({{{keys[-1]}: v7}}); {p}.update(x={v})"),
        (f"{p} = {p}.update()", "ok()"),
        (f"{p} = {p}.update({p})", "ok()"),
        (f"{p} = {p}.update(gen([({c}, {w})]))", f"{p}[{c}] = {w}"),
        (f"{p} = {p}.setall([{a}, {b}], [{w}, {v}])", f"d_setall({p}, [{a}, {b}], [{w}, {v}])"),
        (f"{p} = {p}.setall(gen([{c}]), ({w}, {v}))", f"d_setall({p}, [{c}], [{w}])"),
        (f"{p} = {p}.dropall([{a}, {c}, {a}])", f"d_dropall({p}, [{a}, {c}])"),
        (f"{p} = {p}.dropall(gen([{keys[-1]}]))", f"d_dropall({p}, [{keys[-1]}])"),
        (f"{p} = {p}.dropall({p})", f"{p}.clear()"),
        (f"{p} = {p}.deleteall([{b}, {a}])", f"d_deleteall({p}, [{b}, {a}])"),
        (f"{p} = {p}.deleteall(())", "ok()"),
        (f"{p} = {p}.deleteall({p})", f"{p}.clear()"),
        (f"{p} = {p}.deleteall({p}.keys())", f"{p}.clear()"),
        (f"{p} = {p}.update({p}.items(), {p})", "ok()"),
        (f"{p} = {p}.setall({p}, {p}.values())", "ok()"),
        (f"{p} = {p}.deleteall([{a}, {a}])", f"d_deleteall({p}, [{a}, {a}])"),
        (f"{p} = {p}.setall([{a}, {c}, {a}], [{v}, {w}, {w}])", f"d_setall({p}, [{a}, {c}, {a}], [{v}, {w}, {w}])"),
        (f"{p} = {p}.update([({a}, {w}), ({keys[-1]}, {v}), ({a}, v3)])", f"{p}.update([({a}, {w}), ({keys[-1]}, {v}), ({a}, v3)])"),
        (f"{p} = {p}.update({{}})", "ok()"),
        (f"{p} = {p}.clear()", f"{p}.clear()"),
        (f"{p} = {p}.set(UH, {v})", f"{p}[UH] = {v}"),
        (f"{p} = {p}.transient().persistent()", "ok()"),
        (f"{p} = {cls}({tcls}({p}))", "ok()"),
        (f"{p} = {cls}(list({p}.items()))", "ok()"),
        (f"_t = {p}.transient(); _t[{b}] = {w}; _t.pop({a}, None); {p} = _t.persistent(); del _t", f"{p}[{b}] = {w}; {p}.pop({a}, None)"),
        (f"_t = {p}.transient(); _t.pop({c}, None); _t[{c}] = {v}; {p} = _t.persistent(); del _t", f"{p}.pop({c}, None); {p}[{c}] = {v}"),
        (f"_t = {p}.transient(); _t.popitem(); {p} = _t.persistent(); r = [x for x in _t.items()]; del _t",
         f"{p}.popitem() if not {p} else {p}.pop(next(iter([k for k in {p} if all(k is not y[0] for y in _r)]))); r = list({p}.items())"),
    ]
    return o
def td_updates(t='t', keys=('A', 'B', 'C', 'D', 'A2'), vals=('v1', 'v2'), lite=False):
    o = []
    (a, b, c) = keys[:3]
    (v, w) = vals[:2]
    for k in keys:
        for x in vals:
            o.append((f"{t}[{k}] = {x}", f"{t}[{k}] = {x}"))
        o += [(f"del {t}[{k}]", f"del {t}[{k}]"),
              (f"r = {t}.pop({k})", f"r = {t}.pop({k})")]
    o += [
        (f"{t}[{a}] = v1b", f"{t}[{a}] = v1b"),
        (f"{t}[{b}] = {keys[-1]}", f"{t}[{b}] = {keys[-1]}"),
        (f"r = {t}.pop({b}, v7)", f"r = {t}.pop({b}, v7)"),
        (f"r = {t}.pop({c}, None)", f"r = {t}.pop({c}, None)"),
        (f"r = {t}.popitem()", f"r = takeitem({t}, _r)"),
        (f"r = {t}.setdefault({a}, v3)", f"r = {t}.setdefault({a}, v3)"),
        (f"r = {t}.setdefault({c})", f"r = {t}.setdefault({c})"),
        (f"r = {t}.update({{{c}: v4, {a}: v5}})", f"r = {t}.update({{{c}: v4, {a}: v5}})"),
        (f"{t}.update([({b}, v6)], pdict({{{keys[-1]}: v7}}), x={v})", f"{t}.update([({b}, v6)]); {t}.update({{{keys[-1]}: v7}}); {t}.update(x={v})"),
        (f"{t}.update({t})", "ok()"),
        (f"{t}.update({t}.items())", "ok()"),
        (f"{t}.update(zip({t}, {t}.values()))", "ok()"),
        (f"{t}.update()", "ok()"),
        (f"r = {t}.clear()", f"r = {t}.clear()"),
        (f"{t}[UH] = {v}", f"{t}[UH] = {v}"),
        (f"{t} = {t}.copy()", f"{t} = {t}.copy()"),
        (f"{t} = {t}.persistent().transient()", f"{t} = {t}.copy()"),
        (f"{t} = type({t})({t})", f"{t} = {t}.copy()"),
    ]
    return o

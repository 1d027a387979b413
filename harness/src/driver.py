# Runs programs against the Python package: one JSON line in, one JSON line out.
import json, re, struct, sys, gc
import reductionml as reml
from reductionml import _reductionml as raw


def bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


NAMES = {"SimpleLabel": reml.SimpleLabel, "CbLabel": reml.CbLabel, "ScalarPred": reml.ScalarPred, "ActionScoresPred": reml.ActionScoresPred,
         "ActionProbsPred": reml.ActionProbsPred, "inf": float("inf"), "NaN": float("nan"), "nan": float("nan")}


def same(a, b):
    # a and b are lists of the bits of numbers; a number that is none has many forms
    nan = lambda x: isinstance(x, int) and x & 0x7f800000 == 0x7f800000 and x & 0x7fffff != 0
    return a == b or (isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))) or (nan(a) and nan(b))


def value(text):
    # "-0" is an integer without a sign
    return eval(re.sub(r"-0(?![.\d])", "-0.0", text), dict(NAMES))


def printed(x, out, fields):
    # what is printed gives back the same numbers
    text = str(x)
    v = value(text if text.startswith("[") else "[" + text + "]")
    got = [[a, bits(y)] for a, y in v] if text.startswith("[") else [bits(y) if isinstance(y, float) or k else y for y, k in zip(v, fields)]
    want = out[1] if text.startswith("[") else out[1:]
    if not same(got, want):
        raise AssertionError("printed as %s: %s is not %s" % (text, got, want))
    again = value(repr(x))
    if type(again) is not type(x) or str(again) != text:
        raise AssertionError("represented as %s, printed as %s, %s" % (repr(x), text, again))
    return out


def label_out(l):
    if l is None:
        return None
    if isinstance(l, reml.SimpleLabel):
        return printed(l, ["simple", bits(l.value), bits(l.weight)], [1, 1])
    if isinstance(l, reml.CbLabel):
        return printed(l, ["cb", l.action, bits(l.cost), bits(l.probability)], [0, 1, 1])
    return ["?", repr(l)]


def label_in(l):
    if l[0] == "simple":
        return reml.SimpleLabel(l[1], l[2]) if len(l) > 2 else reml.SimpleLabel(l[1])
    return reml.CbLabel(l[1], l[2], l[3])


def pred_out(p):
    if isinstance(p, reml.ScalarPred):
        return printed(p, ["scalar", bits(p.prediction), bits(p.raw_prediction)], [1, 1])
    if isinstance(p, reml.ActionScoresPred):
        return printed(p, ["scores", [[a, bits(x)] for a, x in p.value]], [])
    if isinstance(p, reml.ActionProbsPred):
        return printed(p, ["probs", [[a, bits(x)] for a, x in p.value]], [])
    return ["?", repr(p)]


def feats_out(f):
    if isinstance(f, reml.SparseFeatures):
        return "simple"
    if isinstance(f, reml.CbAdfFeatures):
        return "cb"
    return repr(f)


def opt(x):
    return None if x is None else str(x)


def types(w):
    t = w.entry_reduction_types
    return [opt(x) for x in (t.input_label_type, t.input_features_type, t.input_prediction_type,
                             t.output_label_type, t.output_features_type, t.output_prediction_type)]


def become(old, new):
    """Make a dictionary or list hold what another one holds, in place."""
    if type(old) is dict and type(new) is dict:
        for k in [k for k in old if k not in new]:
            del old[k]
        for k, v in new.items():
            old[k] = become(old.get(k), v)
        return old
    if type(old) is list and type(new) is list:
        old[:] = [become(old[i] if i < len(old) else None, v) for i, v in enumerate(new)]
        return old
    return new


def step(o, ws, ps, fs, ls, d):
    op = o["op"]
    if op == "config":
        ws[o["id"]] = reml.Workspace.create_from_config(o["config"])
        return types(ws[o["id"]])
    if op == "model":
        ws[o["id"]] = reml.Workspace.create_from_model(bytes(o["bytes"]) if o["as"] == "bytes" else bytearray(o["bytes"]) if o["as"] == "bytearray" else o["bytes"])
        return types(ws[o["id"]])
    if op == "json_model":
        ws[o["id"]] = reml.Workspace.create_from_json_model(o["model"])
        return types(ws[o["id"]])
    if op == "reload":
        ws[o["to"]] = reml.Workspace.create_from_model(ws[o["id"]].serialize())
        return types(ws[o["to"]])
    if op == "reload_json":
        ws[o["to"]] = reml.Workspace.create_from_json_model(ws[o["id"]].serialize_to_json())
        return types(ws[o["to"]])
    if op == "serialize":
        return list(ws[o["id"]].serialize())
    if op == "to_json":
        return ws[o["id"]].serialize_to_json()
    if op == "parser":
        ps[o["id"]] = ws[o["ws"]].create_parser(getattr(reml.FormatType, o["format"]))
        return type(ps[o["id"]]).__name__
    if op == "own_parser":
        ps[o["id"]] = raw.create_parser(getattr(reml.FormatType, o["format"]), getattr(reml.FeaturesType, o["features"]),
                                        getattr(reml.LabelType, o["label"]), o["seed"], o["bits"])
        return type(ps[o["id"]]).__name__
    if op == "parse":
        x = o["text"]
        if o["dict"]:
            x = become(d, json.loads(x)) if o["same"] else json.loads(x)
        f, l = ps[o["id"]].parse(x)
        fs[o["to"]] = f
        ls[o["to"]] = l
        return [feats_out(f), label_out(l)]
    if op == "new_features":
        fs[o["to"]] = reml.SparseFeatures() if o["kind"] == "simple" else reml.CbAdfFeatures()
        return feats_out(fs[o["to"]])
    if op == "construct":
        v = o["value"]
        if o["kind"] == "simple":
            return label_out(reml.SimpleLabel(v[0], v[1]) if o["form"] == 0 else reml.SimpleLabel(value=v[0], weight=v[1]) if o["form"] == 1 else reml.SimpleLabel(v[0]))
        if o["kind"] == "cb":
            return label_out(reml.CbLabel(*v) if o["form"] == 0 else reml.CbLabel(action=v[0], cost=v[1], probability=v[2]))
        if o["kind"] == "scalar":
            return pred_out(reml.ScalarPred(*v))
        v = [(a, x) for a, x in v]
        return pred_out(reml.ActionScoresPred(v) if o["kind"] == "scores" else reml.ActionProbsPred(v))
    if op == "drop":
        fs.pop(o["id"], None)
        ls.pop(o["id"], None)
        if o["gc"]:
            gc.collect()
        return None
    if op == "drop_workspace":
        ws.pop(o["id"], None)
        return None
    if op == "predict":
        return pred_out(ws[o["id"]].predict(fs[o["f"]]))
    l = ls[o["f"]] if o["label"] is None else label_in(o["label"])
    if op == "learn":
        ws[o["id"]].learn(fs[o["f"]], l)
        return label_out(l)
    if op == "ptl":
        return [label_out(l), pred_out(ws[o["id"]].predict_then_learn(fs[o["f"]], l))]
    raise AssertionError(op)


for line in sys.stdin:
    prog = json.loads(line)
    state = ({}, {}, {}, {}, {})
    out = []
    for o in prog:
        try:
            out.append({"ok": step(o, *state)})
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            out.append({"error": type(e).__name__, "exception": isinstance(e, Exception), "text": str(e)[:300]})
    sys.stdout.write(json.dumps(out) + "\n")
    sys.stdout.flush()

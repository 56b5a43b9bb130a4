"""Small helper of the demonstrations: builds models from module texts in a temporary directory."""
import json, os, re, tempfile, shutil
from yangson import DataModel
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import *


def head(name, body, more="", version="1.1"):
    return f'module {name} {{ yang-version {version}; namespace "urn:{name}"; prefix {name};\n{more}\n{body} }}'


def model(texts, imports=(), features=None, subs=None, files=None):
    """texts: module texts (all implemented, first 'revision' used); imports: (name) of import-only modules."""
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        mods = []
        for t in texts:
            name = re.match(r"\s*(?:sub)?module\s+(\S+)", t).group(1)
            mo = re.search(r"revision\s+\"?(\d{4}-\d\d-\d\d)", t)
            rev = mo.group(1) if mo else ""
            with open(os.path.join(d, name + (f"@{rev}" if rev else "") + ".yang"), "w", encoding="utf8") as f:
                f.write(t)
            if t.lstrip().startswith("submodule"):
                continue
            e = {"name": name, "revision": rev, "namespace": f"urn:{name}",
                 "conformance-type": "import" if name in imports else "implement"}
            if features and name in features:
                e["feature"] = features[name]
            if subs and name in subs:
                e["submodule"] = [{"name": s, "revision": ""} for s in subs[name]]
            mods.append(e)
        lib = {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": mods}}
        return DataModel(json.dumps(lib), (d,))
    finally:
        shutil.rmtree(d)


def ok(dm, raw, scope=ValidationScope.all, ctype=ContentType.all):
    """None if the document is accepted, else the exception."""
    try:
        dm.from_raw(raw).validate(scope, ctype)
    except YangsonException as e:
        return e
    return None

#!/usr/bin/env python3
"""Lays out /verif/build/ws: buildable copies of the three crates of /repo that need
cardano-multiplatform-lib (CML, a git dependency nobody can fetch here).

Every source file is a symlink to the live file in /repo; only manifests and module roots are
regenerated, with the lines about the missing parts taken out, and path dependencies made absolute.
The crates that do not need CML are used straight from /repo by path.  `blockchain-source-mv` is
blockchain-source plus its generic `multiverse` module (whose only CML-dependent item, the
StoppableService impl for CardanoSource, is taken out).
A generated file is rewritten only when its text changes, so builds stay incremental."""

import os
import re
import shutil

REPO = "/repo"
WS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "ws")
CML = r"^\s*cardano-multiplatform-lib\b|^\s*cml-[\w-]+ *="


def chain(*fs):
    def f(text):
        for g in fs:
            text = g(text)
        return text

    return f


def drop(pattern):
    return lambda text: "".join(x for x in text.splitlines(True) if not re.search(pattern, x))


def absolute(text):
    return re.sub(r'path = "\.\./', f'path = "{REPO}/', text)


def rename(a, b):
    return lambda text: text.replace(f'name = "{a}"', f'name = "{b}"', 1) + "\n[workspace]\n"


def drop_modules(*names):
    n = "|".join(names)
    return drop(rf"^(pub(\([^)]*\))? )?(mod ({n});|use (self::)?({n})::)")


def only_modules(*without):
    def f(text):
        mods = [
            m
            for m in re.findall(r"^(?:pub(?:\([^)]*\))? )?mod (\w+);", text, re.M)
            if m not in without
        ]
        n = "|".join(mods)
        return "".join(
            x
            for x in text.splitlines(True)
            if re.search(rf"^(pub(\([^)]*\))? )?mod ({n});|^pub use (self::)?({n})::.*;", x)
        )

    return f


def drop_cardano_stoppable(text):
    # the impl block that names CardanoSource, with its attributes
    return re.sub(
        r"(?m)^#\[async_trait::async_trait\]\nimpl dcspark_core::StoppableService\n(?:.*\n)*?^\}\n",
        "",
        text,
        count=1,
    )


def ws(name):
    return lambda text: text + "\n[workspace]\n"


def stubs(text):
    at = os.path.join(os.path.dirname(os.path.dirname(WS)), "harness", "stubs")
    text = re.sub(
        r"(?m)^(cml-[\w-]+) *= *\{[^}]*\}", lambda m: f'{m[1]} = {{ path = "{at}/{m[1]}" }}', text
    )
    return drop(r"^\s*cardano-multiplatform-lib\b|^\s*cardano-utils\b")(text)


def over_cml(text):
    at = os.path.join(os.path.dirname(os.path.dirname(WS)), "harness", "stubs")
    text = re.sub(
        r"(?m)^cardano-multiplatform-lib *= *\{[^}]*\}",
        f'cardano-multiplatform-lib = {{ path = "{at}/cardano-multiplatform-lib" }}',
        text,
    )
    text = re.sub(r'path = "\.\./cardano-utils"', f'path = "{WS}/cardano-utils-cml"', text)
    text = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", text)
    return absolute(text) + "\n[workspace]\n"


def over_stubs(text):
    """the tools: what cannot be fetched comes from harness/stubs"""
    at = os.path.join(os.path.dirname(os.path.dirname(WS)), "harness", "stubs")
    text = re.sub(
        r"(?m)^cardano-multiplatform-lib *= *\{[^}]*\}",
        f'cardano-multiplatform-lib = {{ path = "{at}/cardano-multiplatform-lib", features = ["bip32"] }}',
        text,
    )
    text = re.sub(
        r"(?m)^(reqwest) *=.*$", f'reqwest = {{ path = "{at}/reqwest", features = ["blocking"] }}', text
    )
    if re.search(r"(?m)^miniserde\b", text) and not re.search(r"(?m)^serde *=", text):
        text = re.sub(
            r"(?m)^miniserde *=.*$",
            f'miniserde = {{ path = "{at}/miniserde" }}\nserde = {{ version = "1", features = ["derive"] }}',
            text,
        )
    text = re.sub(r'path = "\.\./\.\./blockchain-source"', f'path = "{WS}/blockchain-source-net"', text)
    text = re.sub(r'path = "\.\./\.\./', f'path = "{REPO}/', text)
    return text + "\n[workspace]\n\n[profile.dev]\nopt-level = 1\ndebug = 0\nincremental = false\n"


MANIFEST = chain(drop(CML + r"|^\s*cardano-utils\b"), absolute)
PARTIAL = {
    "utxo-selection": (
        "utxo-selection",
        {
            "Cargo.toml": chain(MANIFEST, ws("")),
            "src/estimators/mod.rs": drop_modules("cml_fee_estimator", "thermostat_estimator"),
        },
    ),
    "cardano-utils": (
        "cardano-utils",
        {
            "Cargo.toml": chain(drop(CML), absolute, ws("")),
            "src/lib.rs": drop_modules("multisig_plan", "network_id", "payment_credentials", "utxo"),
        },
    ),
    "blockchain-source": (
        "blockchain-source",
        {
            "Cargo.toml": chain(MANIFEST, ws("")),
            "src/lib.rs": drop_modules("multiverse"),
            "src/cardano/mod.rs": only_modules("configuration", "event"),
        },
    ),
    # all of it, over stand-ins for CML (harness/stubs)
    "blockchain-source-net": (
        "blockchain-source",
        {"Cargo.toml": chain(stubs, absolute, ws(""))},
    ),
    "cardano-utils-cml": ("cardano-utils", {"Cargo.toml": over_cml}),
    "utxo-selection-cml": ("utxo-selection", {"Cargo.toml": over_cml}),
    "cip1852-first-address": ("cardano-cli-tools/cip1852-first-address", {"Cargo.toml": over_stubs}),
    "cardano-net-fetcher": ("cardano-cli-tools/cardano-net-fetcher", {"Cargo.toml": over_stubs}),
    "oura-block-fetcher": ("cardano-cli-tools/oura-block-fetcher", {"Cargo.toml": over_stubs}),
    "blockchain-source-mv": (
        "blockchain-source",
        {
            "Cargo.toml": chain(MANIFEST, ws("")),
            "src/cardano/mod.rs": only_modules("configuration", "event"),
            "src/multiverse/mod.rs": drop_cardano_stoppable,
        },
    ),
}


def remove(path):
    if os.path.islink(path) or os.path.isfile(path):
        os.remove(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    remove(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.symlink(src, dst)


def write(dst, text):
    if os.path.isfile(dst) and not os.path.islink(dst):
        with open(dst) as f:
            if f.read() == text:
                return
    remove(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as f:
        f.write(text)


def partial(name, crate, edits):
    src, dst = f"{REPO}/{crate}", f"{WS}/{name}"
    want = set()
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x != "target"]
        for fname in files:
            rel = os.path.relpath(os.path.join(d, fname), src)
            if rel == "Cargo.lock":
                continue
            want.add(rel)
            if rel in edits:
                with open(f"{src}/{rel}") as f:
                    write(f"{dst}/{rel}", edits[rel](f.read()))
            else:
                link(f"{src}/{rel}", f"{dst}/{rel}")
    lock = os.path.join(os.path.dirname(os.path.dirname(WS)), "harness", "tools", "locks", f"{name}.lock")
    if os.path.isfile(lock):
        want.add("Cargo.lock")
        with open(lock) as f:
            write(f"{dst}/Cargo.lock", f.read())
    for d, dirs, files in os.walk(dst):
        for fname in files:
            if os.path.relpath(os.path.join(d, fname), dst) not in want:
                os.remove(os.path.join(d, fname))


def points(crate):
    """fraos and indexed-log-map with a point before each statement (sources by vh-instr)"""
    with open(f"{REPO}/{crate}/Cargo.toml") as f:
        text = f.read()
    text = re.sub(r'path = "\.\./(?!fraos")', f'path = "{REPO}/', text)
    text = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", text)
    vhp = os.path.join(os.path.dirname(os.path.dirname(WS)), "harness", "points")
    text = re.sub(r"(?m)^\[dependencies\]\n", f'[dependencies]\nvhpoints = {{ path = "{vhp}" }}\n', text, count=1)
    write(f"{WS}/points/{crate}/Cargo.toml", text + "\n[workspace]\n")


for name, (crate, edits) in PARTIAL.items():
    partial(name, crate, edits)
for crate in ("fraos", "indexed-log-map"):
    points(crate)

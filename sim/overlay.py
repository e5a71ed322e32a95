"""Makes /verif/ws, a Cargo workspace whose members are symlinks into /repo/src/rust.

/repo/src/rust/Cargo.toml cannot be loaded by cargo as it is (a root package without
targets, and a wasm member whose dependencies are not cached), so its manifest is copied
without the root package and with only the members that can be built."""
import os
import re

SRC = "/repo/src/rust"
HERE = os.path.dirname(os.path.abspath(__file__))
WS = os.path.join(os.path.dirname(HERE), "ws")
MEMBERS = ["cli", "fcb_core"]
BROWSER = "fcb_core_browser"
text = open(f"{SRC}/Cargo.toml").read()
for table in ("package", "dependencies"):
    text = re.sub(rf"(?ms)^\[{table}\].*?(?=^\[|\Z)", "", text)
text, n = re.subn(
    r"(?ms)^members\s*=\s*\[.*?\]", f"members = {MEMBERS + [BROWSER]!r}".replace("'", '"'), text
)
assert n == 1, "no members line in /repo/src/rust/Cargo.toml"
os.makedirs(WS, exist_ok=True)
for name in MEMBERS:
    link = f"{WS}/{name}"
    if not os.path.islink(link):
        os.symlink(f"{SRC}/{name}", link)
path = f"{WS}/Cargo.toml"
if not os.path.exists(path) or open(path).read() != text:
    with open(path, "w") as out:
        out.write(text)

# The browser reader, for this machine: its sources with the condition on the target made true,
# and stand-ins for the crates that reach JavaScript.
WASM = os.path.join(WS, "wasm")
STUBS = os.path.join(HERE, "stubs")
MANIFEST = """[package]
name = "fcb_wasm"
version = "0.1.0"
edition = "2021"
publish = false

[lib]
test = false
doctest = false

[workspace]

[dependencies]
fcb_core = { package = "fcb_core_browser", path = "../fcb_core_browser", features = ["http"] }
async-trait = "0.1"
bytes = "1"
byteorder = "1"
chrono = "0.4"
cjseq = { package = "cjseq2", version = "0.1.0" }
http-range-client = { version = "0.9.0", default-features = false }
log = "0.4"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
"""
for name in ("wasm-bindgen", "js-sys", "serde-wasm-bindgen", "gloo-net", "console_log"):
    MANIFEST += f'{name} = {{ path = "{STUBS}/{name}" }}\n'


def put(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as out:
            out.write(text)


def copy(source, target, change):
    kept = set()
    for where, _, files in os.walk(source):
        for name in files:
            text = open(f"{where}/{name}").read()
            path = f"{target}/" + os.path.relpath(f"{where}/{name}", source)
            put(path, change(re.sub(r'target_arch\s*=\s*"wasm32"', "all()", text)))
            kept.add(path)
    for where, _, files in os.walk(target):
        for name in files:
            if f"{where}/{name}" not in kept:
                os.remove(f"{where}/{name}")


put(f"{WASM}/Cargo.toml", MANIFEST)
copy(f"{SRC}/wasm/src", f"{WASM}/src", lambda s: re.sub(r"async_trait\(\s*\?Send\s*\)", "async_trait", s))

# The core as the browser reader sees it, with the parts that are compiled for its target only.
manifest = open(f"{SRC}/fcb_core/Cargo.toml").read()
manifest = re.sub(r"(?ms)^\[(\[(bench|test|example|bin)\]|dev-dependencies|package\.)[^\n]*\n.*?(?=^\[|\Z)", "", manifest)
manifest, n = re.subn(r'(?m)^name\s*=\s*"fcb_core"', 'name = "fcb_core_browser"', manifest, count=1)
assert n == 1, "no name in /repo/src/rust/fcb_core/Cargo.toml"
put(f"{WS}/{BROWSER}/Cargo.toml", manifest)
copy(f"{SRC}/fcb_core/src", f"{WS}/{BROWSER}/src", lambda s: s)

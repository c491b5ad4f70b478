"""Generates the analysis workspace under /verif/build/ws: manifests that point at /repo's sources, with the shims as deps."""
import os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main(repo='/repo',ws=None):
    ws=ws or V+'/build/ws'
    S=V+'/shims'
    def w(p,s):
        p=os.path.join(ws,p); os.makedirs(os.path.dirname(p),exist_ok=True)
        if not os.path.exists(p) or open(p).read()!=s: open(p,'w').write(s)
    def sh(n,lib=None,extra=''): return f'{n} = {{ path = "{S}/{lib or n}"{extra} }}\n'
    w('Cargo.toml','[workspace]\nresolver = "2"\nmembers = ["mp","core","chainspec","guest","host","models","specs_mp"'+''.join(f',"{x}"' for x in ("specs_core","specs_guest","specs_host") if os.path.exists(V+'/specs/'+x[6:]))+']\n[profile.dev]\noverflow-checks = false\ndebug-assertions = false\n')
    w('mp/Cargo.toml',f'''[package]
name = "ssz-multiproofs"
version = "1.0.0"
edition = "2024"
[lib]
path = "{repo}/ssz-multiproofs/src/lib.rs"
[features]
default = []
builder = ["dep:ssz_rs", "dep:ethereum-consensus", "dep:rayon", "dep:smallvec"]
progress-bar = ["dep:indicatif"]
[dependencies]
serde = {{ version = "1", features = ["derive"] }}
sha2 = {{ version = "0.10.9", default-features = false }}
alloy-primitives = {{ version = "1", features = ["serde"] }}
bitvec = {{ version = "1", features = ["serde"] }}
thiserror = "2"
tracing = "0.1"
itertools = "0.14"
rayon = {{ version = "1", optional = true }}
indicatif = {{ version = "0.17", features = ["rayon"], optional = true }}
smallvec = {{ version = "1", optional = true }}
ssz_rs = {{ path = "{S}/ssz_rs", optional = true }}
ethereum-consensus = {{ path = "{S}/ethereum-consensus", optional = true }}
''')
    core_deps=(sh('alloy-sol-types')+sh('beacon_types',extra=', features = ["legacy-arith"]')+sh('bls')+sh('ethereum_ssz')+sh('safe_arith')
        +sh('serde_arrays')+sh('serde_with')+sh('swap_or_not_shuffle')+sh('tree_hash'))
    w('core/Cargo.toml',f'''[package]
name = "z-core"
version = "1.0.0"
edition = "2024"
[lib]
path = "{repo}/core/src/lib.rs"
[dependencies]
alloy-primitives = {{ version = "1", features = ["serde"] }}
itertools = "0.14"
serde = {{ version = "1", features = ["derive"] }}
sha2 = {{ version = "0.10.9", default-features = false }}
ssz-multiproofs = {{ path = "../mp" }}
thiserror = "2"
tracing = "0.1"
'''+core_deps)
    w('chainspec/Cargo.toml',f'''[package]
name = "chainspec"
version = "1.0.0"
edition = "2024"
[lib]
path = "{repo}/chainspec/src/lib.rs"
[features]
mainnet = []
sepolia = []
[dependencies]
'''+sh('beacon_types',extra=', features = ["legacy-arith"]')+sh('serde_yaml'))
    bins=''.join(f'[[bin]]\nname = "{n}"\npath = "{repo}/methods/guest/src/bin/{n}.rs"\n' for n in ('mainnet','sepolia','test_harness'))
    w('guest/Cargo.toml',f'''[package]
name = "beacon_guest"
version = "1.0.0"
edition = "2021"
[lib]
path = "{repo}/methods/guest/src/lib.rs"
{bins}
[dependencies]
bincode = "1.3"
chainspec = {{ path = "../chainspec", features = ["mainnet", "sepolia"] }}
sha2 = "0.10.9"
z-core = {{ path = "../core" }}
'''+sh('risc0-zkvm',extra=', features = ["std"]')+sh('serde_cbor'))
    w('host/Cargo.toml',f'''[package]
name = "host"
version = "1.0.0"
edition = "2024"
[lib]
path = "{repo}/host/src/lib.rs"
[[bin]]
name = "gen_gindices"
path = "{repo}/host/src/bin/gen_gindices.rs"
[[bin]]
name = "zkasper_cli"
path = "{repo}/host/src/bin/zkasper_cli.rs"
[dependencies]
alloy-primitives = {{ version = "1", features = ["serde"] }}
anyhow = "1"
bincode = "1.3"
chainspec = {{ path = "../chainspec", features = ["mainnet", "sepolia"] }}
clap = {{ version = "4", features = ["derive", "env"] }}
futures = "0.3"
hex = "0.4"
http = "1"
proc-macro2 = "1"
quote = "1"
rayon = "1"
serde = {{ version = "1", features = ["derive", "rc"] }}
serde_json = "1"
syn = {{ version = "2", features = ["full"] }}
thiserror = "2"
tokio = {{ version = "1", features = ["full"] }}
tracing = "0.1"
tracing-subscriber = {{ version = "0.3", features = ["env-filter"] }}
ssz-multiproofs = {{ path = "../mp", features = ["builder", "progress-bar"] }}
z-core = {{ path = "../core" }}
'''+sh('async-trait')+sh('beacon_chain')+sh('beacon_types',extra=', features = ["legacy-arith"]')+sh('bls')+sh('elsa')+sh('ethereum-consensus')+sh('ethereum_ssz')
      +sh('governor')+sh('http-cache-reqwest')+sh('methods')+sh('prettyplease')+sh('reqwest')+sh('reqwest-middleware')+sh('risc0-zkvm',extra=', features = ["std"]')
      +sh('safe_arith')+sh('ssz_rs')+sh('ssz_types')+sh('url'))
    w('specs_mp/Cargo.toml',f'''[package]
name = "specs_mp"
version = "1.0.0"
edition = "2024"
[lib]
path = "{V}/specs/mp/src/lib.rs"
[dependencies]
models = {{ path = "../models" }}
ssz-multiproofs = {{ path = "../mp", features = ["builder", "progress-bar"] }}
itertools = "0.14"
ssz_rs = {{ path = "{S}/ssz_rs" }}
''')
    if os.path.exists(V+'/specs/core'): w('specs_core/Cargo.toml',f'''[package]
name = "specs_core"
version = "1.0.0"
edition = "2024"
[lib]
path = "{V}/specs/core/src/lib.rs"
[dependencies]
models = {{ path = "../models" }}
z-core = {{ path = "../core" }}
ssz-multiproofs = {{ path = "../mp" }}
alloy-primitives = {{ version = "1", features = ["serde"] }}
serde = {{ version = "1", features = ["derive"] }}
itertools = "0.14"
sha2 = {{ version = "0.10.9", default-features = false }}
chainspec = {{ path = "../chainspec", features = ["mainnet", "sepolia"] }}
'''+core_deps+sh('risc0-zkvm',extra=', features = ["std"]'))
    if os.path.exists(V+'/specs/guest'): w('specs_guest/Cargo.toml',f'''[package]
name = "specs_guest"
version = "1.0.0"
edition = "2024"
[lib]
path = "{V}/specs/guest/src/lib.rs"
[dependencies]
models = {{ path = "../models" }}
z-core = {{ path = "../core" }}
beacon_guest = {{ path = "../guest" }}
chainspec = {{ path = "../chainspec", features = ["mainnet", "sepolia"] }}
bincode = "1.3"
'''+sh('beacon_types',extra=', features = ["legacy-arith"]')+sh('risc0-zkvm',extra=', features = ["std"]')+sh('serde_yaml'))
    if os.path.exists(V+'/specs/host'): w('specs_host/Cargo.toml',f'''[package]
name = "specs_host"
version = "1.0.0"
edition = "2024"
[lib]
path = "{V}/specs/host/src/lib.rs"
[dependencies]
models = {{ path = "../models" }}
z-core = {{ path = "../core" }}
host = {{ path = "../host" }}
chainspec = {{ path = "../chainspec", features = ["mainnet", "sepolia"] }}
ssz-multiproofs = {{ path = "../mp", features = ["builder", "progress-bar"] }}
alloy-primitives = {{ version = "1", features = ["serde"] }}
anyhow = "1"
bincode = "1.3"
futures = "0.3"
http = "1"
serde = {{ version = "1", features = ["derive", "rc"] }}
serde_json = "1"
'''+sh('beacon_types',extra=', features = ["legacy-arith"]')+sh('bls')+sh('elsa')+sh('ethereum-consensus')+sh('ethereum_ssz')+sh('methods')+sh('reqwest')+sh('reqwest-middleware')+sh('risc0-zkvm',extra=', features = ["std"]')
      +sh('safe_arith')+sh('ssz_rs')+sh('ssz_types')+sh('url'))
    w('models/Cargo.toml',f'[package]\nname = "models"\nversion = "1.0.0"\nedition = "2024"\n[lib]\npath = "{V}/models/src/lib.rs"\n[dependencies]\n')
    if os.path.exists(V+'/tools/ws.lock') and not os.path.exists(ws+'/Cargo.lock'):
        w('Cargo.lock',open(V+'/tools/ws.lock').read())
if __name__=='__main__': main(*sys.argv[1:])

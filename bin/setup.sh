#!/bin/bash
cd /verif/harness && export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cargo +1.84.1 build --offline 2>&1 | tail -3

#!/bin/bash
# cargo, offline, with every crate taken from the directory source that
# vendor.py assembles from the local registry cache and /verif/shims.
. /verif/tools/env.sh
exec cargo "$@" --offline \
  --config 'source.crates-io.replace-with="vend"' \
  --config 'source.vend.directory="/verif/.work/vendor"' \
  --config 'source.a.git="https://github.com/vercre/did.git"' --config 'source.a.replace-with="vend"' \
  --config 'source.b.git="https://github.com/vercre/infosec.git"' --config 'source.b.replace-with="vend"'

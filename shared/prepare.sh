#!/bin/bash
# prepare.sh REPO [plain]: copy the library's sources and put the stand-ins for std and
# once_cell in. Files that did not change are left alone, so that only changes are rebuilt.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$1"
plain="${2:-}"
new="$here/copy.new"
rm -rf "$new"
mkdir -p "$new" "$here/copy"
cp -r "$repo/src" "$new/src"
sed -e '/^\[profile/,$d' -e 's|^\[dependencies\]|[dependencies]\nmc_std = { path = "../std" }\nmc_once = { path = "../once" }|' "$repo/Cargo.toml" > "$new/Cargo.toml"
[ -n "$plain" ] || printf '\nextern crate mc_once as once_cell;\nextern crate mc_std as std;\n' >> "$new/src/lib.rs"
(cd "$here/copy" && find . -type f) | while read -r f; do [ -e "$new/$f" ] || rm -f "$here/copy/$f"; done
(cd "$new" && find . -type f) | while read -r f; do
  if ! cmp -s "$new/$f" "$here/copy/$f"; then
    mkdir -p "$(dirname "$here/copy/$f")"
    cp "$new/$f" "$here/copy/$f"
  fi
done
rm -rf "$new"

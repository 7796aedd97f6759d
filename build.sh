#!/bin/bash
# Builds the simulator from /repo's working tree; prints the path of the binary.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
R="${SIM_REPO:-/repo}"
export VERIF_DIR="$V"
mapfile -t SRC < <(find "$R/src" -name '*.cpp' | LC_ALL=C sort)
mapfile -t HDR < <(find "$R/src" "$R/tools" -name '*.hpp' -o -name '*.h' | LC_ALL=C sort)
KEY=$(cat "${SRC[@]}" "${HDR[@]}" "$R/tools/src/main.cpp" "$V"/sim/* "$V/build.sh" | sha256sum | cut -c1-24)
B="$V/build/$KEY"
if [ -x "$B/sim" ]; then echo "$B/sim"; exit 0; fi
mkdir -p "$B/o"
COMMON="-std=c++11 -w -Wno-c++11-narrowing -Wno-error -g1 -fno-omit-frame-pointer -I$R -I$R/src -DHAS_RES_NINIT -Wno-deprecated-declarations"
SAN="-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined -ftrivial-auto-var-init=pattern"
COV="-fsanitize-coverage=trace-pc-guard,no-prune"
CXX=clang++
jobs_file="$B/jobs"; : > "$jobs_file"
OBJ=()
n=0
for f in "${SRC[@]}"; do o="$B/o/lib$n.o"; n=$((n+1)); OBJ+=("$o"); echo "$CXX $COMMON -O1 $SAN $COV -c '$f' -o '$o'" >> "$jobs_file"; done
o="$B/o/tool.o"; OBJ+=("$o"); echo "$CXX $COMMON -O1 $SAN $COV -Dmain=dkimtool_main -c '$R/tools/src/main.cpp' -o '$o'" >> "$jobs_file"
for f in core ref world edit gen main; do o="$B/o/h_$f.o"; OBJ+=("$o"); echo "$CXX $COMMON -std=c++17 -O1 $SAN -c '$V/sim/$f.cpp' -o '$o'" >> "$jobs_file"; done
if ! xargs -P "$(nproc)" -d '\n' -I{} bash -c '{} 2>&1 || { echo "FAILED: {}"; exit 255; }' < "$jobs_file" >&2; then echo "ERROR: build failed" >&2; exit 3; fi
W=""
for s in EVP_DigestInit_ex EVP_DigestUpdate EVP_DigestFinal_ex EVP_MD_CTX_copy EVP_MD_CTX_copy_ex EVP_MD_CTX_new BIO_new BIO_write BIO_read PEM_read_bio_PrivateKey d2i_PUBKEY d2i_RSAPrivateKey EVP_PKEY_get1_RSA RSA_sign RSA_verify free crypto_sign_verify_detached crypto_sign_detached crypto_sign_seed_keypair vasprintf time clock_gettime gettimeofday _ZNSt6chrono3_V212system_clock3nowEv pthread_mutex_lock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __res_ninit __res_nclose res_nquery; do W="$W -Wl,--wrap=$s"; done
if ! $CXX $SAN -rdynamic "${OBJ[@]}" -o "$B/sim.tmp" $W -lssl -lcrypto -lsodium -lresolv -lpthread -ldl >&2; then echo "ERROR: link failed" >&2; exit 3; fi
mv "$B/sim.tmp" "$B/sim"
rm -f "$B"/o/*.o
# keep the newest few builds only
ls -1dt "$V"/build/*/ 2>/dev/null | tail -n +13 | while read -r d; do case "$d" in "$V"/build/*) find "$d" -depth -delete ;; esac; done
echo "$B/sim"

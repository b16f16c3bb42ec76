#!/bin/bash
# seed.sh new ID PROPERTY : take the edit in /tmp/seedrepo as /verif/seeded/ID/patch.diff, add the demo support files
# seed.sh check ID        : in a private mount of a scratch copy over /repo: demo passes, patch applies/builds/passes stable tests, demo fails
# seed.sh catch ID CHECK..: run the checks with the patch applied (same scratch copy)
set -u
V=/verif; S=$V/seeded; R=${SEEDR:-/tmp/seedrepo}
[ -d $R ] || cp -a /repo $R
cmd=$1; id=$2; shift 2
case $cmd in
 new)
  mkdir -p $S/$id; git -C $R diff > $S/$id/patch.diff; git -C $R checkout -q -- .
  esb=/opt/veriftools/node/node_modules/esbuild/bin/esbuild
  $esb $V/tools/simentry.mjs --bundle --format=esm --platform=node --outfile=$S/$id/sim.mjs --log-level=error
  cp $V/stubs/dom-mutator.ts $S/$id/
  printf '#!/bin/bash\n# exits 0 when the property holds in the scenario of demo.mjs, 1 when it is broken\nexec node "$(dirname "$0")/demo.mjs"\n' > $S/$id/demo.sh; chmod +x $S/$id/demo.sh
  wc -l $S/$id/patch.diff;;
 check|quickcheck)
  git -C $R checkout -q -- .; git -C $R fetch -q /repo HEAD 2>/dev/null; git -C $R reset -q --hard FETCH_HEAD
  rm -f /tmp/seed-t.json
  rm -rf /tmp/seedlay$$; cp -a $S/$id /tmp/seedlay$$; rm -f /tmp/seedlay$$/*.diff /tmp/seedlay$$/meta.json
  unshare -Urm bash -c "mount --bind $R /repo && cd /repo && { bash /tmp/seedlay$$/demo.sh >/tmp/seed-a.log 2>&1; echo \"$id unpatched demo rc \$?\"
   git apply $S/$id/patch.diff || { echo APPLY FAILED; exit 1; }
   bash /tmp/seedlay$$/demo.sh >/tmp/seed-b.log 2>&1; echo \"$id patched demo rc \$?\"; grep FAIL /tmp/seed-b.log | head -5
   if [ $cmd = check ]; then bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || echo BUILD FAILED; bash /opt/vp/test.sh /tmp/seed-t.json >/tmp/seed-test.log 2>&1; python3 /tmp/cmp.py /tmp/seed-t.json; fi; }"
  git -C $R checkout -q -- .; rm -rf /tmp/seedlay$$;;
 catch)
  git -C $R checkout -q -- .; git -C $R apply $S/$id/patch.diff || exit 1
  for c in "$@"; do unshare -Urm bash -c "mount --bind $R /repo && cd $V && VERIF_SEED=1 VERIF_NO_EVIDENCE=1 timeout 900 node run.mjs $c quick >/tmp/seed-c.log 2>&1; echo \"$id $c rc \$?\"; grep -m3 -i 'violat\|sig' /tmp/seed-c.log | cut -c1-300"; done
  git -C $R checkout -q -- .;;
esac

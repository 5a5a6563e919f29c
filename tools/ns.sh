#!/bin/bash
# tools/ns.sh COPY cmd...   run cmd with COPY mounted over /repo and a private loopback network
C=$1; shift
exec unshare -Urnm bash -c 'mount --bind "$0" /repo && ip link set lo up && cd /repo && exec "$@"' "$C" "$@"

#!/bin/bash
# asan.sh SCRIPT ARGS... - run a PHP script with the newest asan build (development aid)
B=$(ls -td /verif/build/asan-* | head -1)
LD_PRELOAD=$B/shim.so:$(gcc -print-file-name=libasan.so) USE_ZEND_ALLOC=0 ASAN_OPTIONS=detect_leaks=0:verify_asan_link_order=0 exec php8.3 -n -d extension=$B/teds.so "$@"

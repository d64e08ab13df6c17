# The threaded plugin, with every memory access, allocation and glib thread call under control.
UNTH=
MCSRC="$HERE/mc/mc.c $HERE/mc/sim.c $HERE/mc/sslcache.c $HERE/mc/fibers.c"
GLIB="-I/usr/include/glib-2.0 -I/usr/lib/x86_64-linux-gnu/glib-2.0/include"
MCFLAGS="$GLIB"
PDEF="-Dmalloc=mc_malloc -Dcalloc=mc_calloc -Drealloc=mc_realloc -Dfree=mc_free -Dmemcpy=mc_memcpy -Dmemmove=mc_memmove -Dmemset=mc_memset -Dmemcmp=mc_memcmp -Dopenssl_sign_hash=plug_sign_hash -Dopenssl_private_key_malloc=plug_private_key_malloc -Dopenssl_free_key=plug_free_key"
$CC -g -O1 -w -fno-builtin -fno-omit-frame-pointer -fsanitize=thread,undefined -fno-sanitize-recover=undefined $LIBFLAGS $PDEF $GLIB $INC -c $REPO/lib/plugins/threaded-signing/plugin.c -o "$B/thr0.o" || exit 2
# Its static data in sections of their own, to be restored before each execution.
objcopy --rename-section .bss=mcbss,alloc,load,data,contents --rename-section .data=mcdata "$B/thr0.o" "$B/thr.o" || exit 2
EXTRA="$B/thr.o -lglib-2.0"

# The real plugin, library memory under control.
MCSRC="$HERE/mc/mc.c $HERE/mc/sim.c $HERE/mc/sslcache.c $HERE/mc/mem.c"
RENAME=
LIBFLAGS="$LIBFLAGS -Dmalloc=mc_malloc -Dcalloc=mc_calloc -Drealloc=mc_realloc -Dfree=mc_free -Dstrdup=mc_strdup -Dprintf=mc_printf -Dvprintf=mc_vprintf -fno-builtin-printf -fno-builtin-malloc -fno-builtin-free -fno-builtin-strdup"
EXTRA=-Wl,--wrap=EVP_PKEY_Q_keygen

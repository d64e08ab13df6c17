# As oom: the real plugin, memory and OpenSSL calls under control.
MCSRC="$HERE/mc/mc.c $HERE/mc/sim.c $HERE/mc/sslcache.c $HERE/mc/mem.c $HERE/mc/sslfail.c"
RENAME=
LIBFLAGS="$LIBFLAGS -Dmalloc=mc_malloc -Dcalloc=mc_calloc -Drealloc=mc_realloc -Dfree=mc_free -Dstrdup=mc_strdup -Dprintf=mc_printf -Dvprintf=mc_vprintf -fno-builtin-printf -fno-builtin-malloc -fno-builtin-free -fno-builtin-strdup"
for f in $(grep -o '^F([^,]*, [A-Za-z0-9_]*' "$HERE/mc/sslfail.c" | sed 's/.*, //'); do LIBFLAGS="$LIBFLAGS -D$f=mcf_$f"; done
LIBFLAGS="$LIBFLAGS -Dfclose=mcf_fclose -DEVP_PKEY_Q_keygen=mcf_EVP_PKEY_Q_keygen"

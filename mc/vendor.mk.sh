# Library memory under control.
MCSRC="$MCSRC $HERE/mc/mem.c"
LIBFLAGS="$LIBFLAGS -Dmalloc=mc_malloc -Dcalloc=mc_calloc -Drealloc=mc_realloc -Dfree=mc_free -Dstrdup=mc_strdup -Dprintf=mc_printf -Dvprintf=mc_vprintf -fno-builtin-printf -fno-builtin-malloc -fno-builtin-free -fno-builtin-strdup"

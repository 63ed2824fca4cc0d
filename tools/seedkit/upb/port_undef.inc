#undef UPB_SIZE
#undef UPB_PTR_AT
#undef UPB_READ_ONEOF
#undef UPB_WRITE_ONEOF
#undef UPB_INLINE
#undef UPB_LIKELY
#undef UPB_UNLIKELY
#undef UPB_UNUSED

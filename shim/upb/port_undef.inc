#undef UPB_SIZE
#undef UPB_INLINE
#undef UPB_PTR_AT
#undef UPB_READ_ONEOF
#undef UPB_WRITE_ONEOF
#undef _UPB_LABEL_MAP
#undef _UPB_LABEL_PACKED

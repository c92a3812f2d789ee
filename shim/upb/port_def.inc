#define UPB_SIZE(size32, size64) size64
#define UPB_INLINE static inline __attribute__((unused))
#define UPB_PTR_AT(msg, ofs, type) ((type*)((char*)(msg) + (ofs)))
#define UPB_READ_ONEOF(msg, fieldtype, offset, case_offset, case_val, default) \
  *UPB_PTR_AT(msg, case_offset, int) == case_val                               \
      ? *UPB_PTR_AT(msg, offset, fieldtype)                                    \
      : default
#define UPB_WRITE_ONEOF(msg, fieldtype, offset, value, case_offset, case_val) \
  *UPB_PTR_AT(msg, case_offset, int) = case_val;                              \
  *UPB_PTR_AT(msg, offset, fieldtype) = value;
#define _UPB_LABEL_MAP 4
#define _UPB_LABEL_PACKED 7

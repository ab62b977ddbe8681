// The element types DataLayout is instantiated for during verification: a sample of the real list (vrs/helpers/PODMacro.inc),
// all instances of the same templates.
POD_MACRO(double)
POD_MACRO(int64_t)
POD_MACRO(int32_t)
POD_MACRO(uint32_t)
POD_MACRO(uint8_t)
POD_MACRO(Point3Di)
#undef POD_MACRO

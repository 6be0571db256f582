/* A Windows type, used for one unused variable in img_draw_macos_impl.cpp. */
typedef unsigned long ULONG_PTR;

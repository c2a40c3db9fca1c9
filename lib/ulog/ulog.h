/* Stub of the optional libulog: logging gets empty bodies (see DESIGN.md). */
#ifndef VP_ULOG_H
#define VP_ULOG_H
#define ULOG_DECLARE_TAG(_t) extern int vp_ulog_unused
#define ULOGD(...) ((void)0)
#define ULOGI(...) ((void)0)
#define ULOGW(...) ((void)0)
#define ULOGE(...) ((void)0)
#endif

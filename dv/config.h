/* build configuration used by the checks: no GLib, no gettext, no OpenMP */
#define MYPAINT_CONFIG_USE_GLIB 0

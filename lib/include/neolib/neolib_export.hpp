
#ifndef NEOLIB_EXPORT_H
#define NEOLIB_EXPORT_H

#ifdef NEOLIB_STATIC_DEFINE
#  define NEOLIB_EXPORT
#  define NEOLIB_NO_EXPORT
#else
#  ifndef NEOLIB_EXPORT
#    ifdef neolib_EXPORTS
        /* We are building this library */
#      define NEOLIB_EXPORT 
#    else
        /* We are using this library */
#      define NEOLIB_EXPORT 
#    endif
#  endif

#  ifndef NEOLIB_NO_EXPORT
#    define NEOLIB_NO_EXPORT 
#  endif
#endif

#ifndef NEOLIB_DEPRECATED
#  define NEOLIB_DEPRECATED __attribute__ ((__deprecated__))
#endif

#ifndef NEOLIB_DEPRECATED_EXPORT
#  define NEOLIB_DEPRECATED_EXPORT NEOLIB_EXPORT NEOLIB_DEPRECATED
#endif

#ifndef NEOLIB_DEPRECATED_NO_EXPORT
#  define NEOLIB_DEPRECATED_NO_EXPORT NEOLIB_NO_EXPORT NEOLIB_DEPRECATED
#endif

#if 0 /* DEFINE_NO_DEPRECATED */
#  ifndef NEOLIB_NO_DEPRECATED
#    define NEOLIB_NO_DEPRECATED
#  endif
#endif

#endif /* NEOLIB_EXPORT_H */

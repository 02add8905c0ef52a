#include <new>
#include <cstddef>
static std::new_handler first;
static bool have;
extern "C" void cpp_handler(int none) {
    if(!have) { first = std::get_new_handler(); have = true; }
    std::set_new_handler(none ? nullptr : first);
}
extern "C" void *cpp_new(int f, size_t n, size_t a, int *thrown) {
    *thrown = 0;
    try {
        switch(f) {
        case 0: return ::operator new(n);
        case 1: return ::operator new[](n);
        case 2: return ::operator new(n, std::nothrow);
        case 3: return ::operator new[](n, std::nothrow);
        case 4: return ::operator new(n, std::align_val_t(a));
        case 5: return ::operator new[](n, std::align_val_t(a));
        case 6: return ::operator new(n, std::align_val_t(a), std::nothrow);
        case 7: return ::operator new[](n, std::align_val_t(a), std::nothrow);
        }
    } catch(const std::bad_alloc &) { *thrown = 1; }
    return nullptr;
}
extern "C" void cpp_delete(int f, void *p, size_t n, size_t a) {
    switch(f) {
    case 0: ::operator delete(p); break;
    case 1: ::operator delete[](p); break;
    case 2: ::operator delete(p, n); break;
    case 3: ::operator delete[](p, n); break;
    case 4: ::operator delete(p, std::nothrow); break;
    case 5: ::operator delete[](p, std::nothrow); break;
    case 6: ::operator delete(p, std::align_val_t(a)); break;
    case 7: ::operator delete[](p, std::align_val_t(a)); break;
    }
}

#pragma once
#include <cstdint>

// Abstract element: the verifier knows nothing about it but the contracts of these three functions.
struct Elt {
    uint64_t id;
    Elt(const Elt& e) noexcept;
    Elt(Elt&& e) noexcept;
    ~Elt() noexcept;
#ifdef ELT_ASSIGN
    Elt& operator=(Elt&& e) noexcept;
#endif
};
// The same, not copiable.
struct Uniq {
    uint64_t id;
    Uniq(const Uniq& e) = delete;
    Uniq(Uniq&& e) noexcept;
    ~Uniq() noexcept;
#ifdef ELT_ASSIGN
    Uniq& operator=(Uniq&& e) noexcept;
#endif
};
struct Big24 { uint64_t a, b, c; };

extern "C" void elt_copy(void* d, const void* s) noexcept;
extern "C" void elt_move(void* d, void* s) noexcept;
extern "C" void elt_dtor(void* d) noexcept;
#ifndef ELT_IMPL
inline __attribute__((always_inline)) Elt::Elt(const Elt& e) noexcept { elt_copy(this, &e); }
inline __attribute__((always_inline)) Elt::Elt(Elt&& e) noexcept { elt_move(this, &e); }
inline __attribute__((always_inline)) Elt::~Elt() noexcept { elt_dtor(this); }
inline __attribute__((always_inline)) Uniq::Uniq(Uniq&& e) noexcept { elt_move(this, &e); }
inline __attribute__((always_inline)) Uniq::~Uniq() noexcept { elt_dtor(this); }
#endif
#ifdef ELT_ASSIGN
// assigning a member-wise movable struct: each member lets go of what it has and takes what the other one has
inline __attribute__((always_inline)) Elt& Elt::operator=(Elt&& e) noexcept { if (this != &e) { elt_dtor(this); elt_move(this, &e); } return *this; }
inline __attribute__((always_inline)) Uniq& Uniq::operator=(Uniq&& e) noexcept { if (this != &e) { elt_dtor(this); elt_move(this, &e); } return *this; }
#endif

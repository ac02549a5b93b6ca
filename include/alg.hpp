// The algebra a driver is compiled for: -DALG_<name>.  NS is the namespace with the algebra, SP the reference space.
#ifndef VERIF_ALG_HPP
#define VERIF_ALG_HPP

#define STR_(x) #x
#define STR(x) STR_(x)
#define CAT3_(a, b, c) a##b##c
#define CAT3(a, b, c) CAT3_(a, b, c)

// -DKIND=e|h|p|m|c -DDIM=d picks one of the shipped algebras; -DKIND=s -DSP_=p -DSQ_=q -DSR_=r a user-defined signature;
// -DKIND=g -DDIM=d a user-defined (non-orthogonal) general metric.
#define KIND_IS_e 1
#define KIND_IS_h 2
#define KIND_IS_p 3
#define KIND_IS_m 4
#define KIND_IS_c 5
#define KIND_IS_s 6
#define KIND_IS_g 7
#define KIND_ID_(k) KIND_IS_##k
#define KIND_ID(k) KIND_ID_(k)
#define KID KIND_ID(KIND)

#if KID <= 5
  #if KID == 1
    #define NS CAT3(ga, DIM, e)
  #elif KID == 2
    #define NS CAT3(ga, DIM, h)
  #elif KID == 3
    #define NS CAT3(ga, DIM, p)
  #elif KID == 4
    #define NS CAT3(ga, DIM, m)
  #else
    #define NS CAT3(ga, DIM, c)
  #endif
  #define HDR_(d, k) <gatl/ga##d##k.hpp>
  #define HDR(d, k) HDR_(d, k)
  #include HDR(DIM, KIND)
#else
  #include <gatl/ga.hpp>
  #include <gatl/ga/model/euclidean.hpp>
  #include <gatl/ga/model/general.hpp>
  #if KID == 6
    #define DIM (SP_ + SQ_ + SR_)
    namespace gax {
        using namespace ga;
        using space_t = signed_metric_space<SP_, SQ_, SR_>;
        static space_t const space;
        static std::array<std::string, DIM> const basis_vectors_names = [] { std::array<std::string, DIM> r; for (int i = 0; i < DIM; ++i) r[i] = "a" + std::to_string(i + 1); return r; }();
        static auto const I = pseudoscalar(space);
        _GA_CORE_OVERLOAD(space)
        _GA_UTIL_OVERLOAD(space)
        _GA_EXTRA_OVERLOAD(space, basis_vectors_names)
    }
    #define NS gax
  #else
    namespace gax {
        using namespace ga;
        #ifdef GMAT // -DGMAT=m11,m12,...
        #elif DIM == 2
          #define GMAT 1, 2, 2, -1
        #elif DIM == 3
          #define GMAT 1, 1, 0, 1, -2, 3, 0, 3, 0
        #elif DIM == 4
          #define GMAT 1, 0, 0, 0, 0, 2, 1, 0, 0, 1, 0, -1, 0, 0, -1, 1
        #endif
        using space_t = constant_general_metric_space_t<GMAT>;
        static space_t const space;
        static std::array<std::string, DIM> const basis_vectors_names = [] { std::array<std::string, DIM> r; for (int i = 0; i < DIM; ++i) r[i] = "a" + std::to_string(i + 1); return r; }();
        static auto const I = pseudoscalar(space);
        _GA_CORE_OVERLOAD(space)
        _GA_UTIL_OVERLOAD(space)
        _GA_EXTRA_OVERLOAD(space, basis_vectors_names)
    }
    #define NS gax
  #endif
#endif

#include "mon.hpp"

#if KID == 1
  constexpr int ND = DIM;
  static ref::space SP = ref::space::euclidean(DIM);
#elif KID == 2
  constexpr int ND = DIM + 1;
  static ref::space SP = ref::space::euclidean(DIM + 1);
#elif KID == 3
  constexpr int ND = DIM + 1;
  static ref::space SP = ref::space::sig(DIM, 0, 1);
#elif KID == 4
  constexpr int ND = DIM + 2;
  static ref::space SP = ref::space::sig(DIM + 1, 1, 0);
#elif KID == 5
  constexpr int ND = DIM + 2;
  static ref::space SP = ref::space::conformal(DIM);
#elif KID == 6
  constexpr int ND = DIM;
  static ref::space SP = ref::space::sig(SP_, SQ_, SR_);
#else
  constexpr int ND = DIM;
  static ref::space SP = ref::space(DIM, std::vector<ref::num>{GMAT});
#endif

#if KID == 5 || KID == 7
constexpr bool ORTHOGONAL = false;
#else
constexpr bool ORTHOGONAL = true;
#endif

#if KID == 3 || (KID == 6 && SR_ > 0) || defined(GDEG)
constexpr bool DEGENERATE = true;
#else
constexpr bool DEGENERATE = false;
#endif

#ifdef COEF
#define COEF_ " " STR(COEF)
#else
#define COEF_ ""
#endif

#if KID == 6
static std::string const UNIT = std::string("signed<") + STR(SP_) + "," + STR(SQ_) + "," + STR(SR_) + ">" COEF_;
#elif KID == 7
static std::string const UNIT = std::string("general metric, ") + STR(DIM) + "D" COEF_;
#else
static std::string const UNIT = std::string("ga") + STR(DIM) + STR(KIND) + COEF_;
#endif

#endif

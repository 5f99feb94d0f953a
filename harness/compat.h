// -*- c++ -*-
// Stand-in for what the pyre release that mito is developed against provides and the installed one
// (1.14.0) does not: the transpose trait used by lib/mito/functions/traits.h, and the macros that
// describe the tensor support. Without it everything above {lib/mito/functions} fails to compile
// in this sandbox. It adds no behaviour of its own.
#pragma once
#define HAVE_TENSOR
#define HAVE_COMPACT_PACKINGS
#include <pyre/tensor.h>
#include <pyre/journal.h>
namespace pyre::tensor::traits {
    template <class T>
    struct transpose;
    template <int D1, int D2, typename T, class packingT>
    struct transpose<pyre::tensor::matrix_t<D1, D2, T, packingT>> {
        using type = pyre::tensor::matrix_t<D2, D1, T, packingT>;
    };
}

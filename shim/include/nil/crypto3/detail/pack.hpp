// Stand-in: nothing of this header (from crypto3-block/hash) is used by crypto3-algebra's marshalling.
#ifndef VERIF_SHIM_PACK_HPP
#define VERIF_SHIM_PACK_HPP
#endif

// Makes the tape use small chunks, so that every recording crosses many chunk boundaries (included before everything else).
#pragma once
#include <XAD/ChunkContainer.hpp>
#include <utility>
namespace xad
{
template <class T> struct TapeContainerTraits;
template <class T> struct AReal;
template <class T> struct FReal;
template <> struct TapeContainerTraits<unsigned> { typedef ChunkContainer<unsigned, 32> type; };
template <> struct TapeContainerTraits<float> { typedef ChunkContainer<float, 32> type; };
template <> struct TapeContainerTraits<double> { typedef ChunkContainer<double, 16> type; };
template <class T> struct TapeContainerTraits<AReal<T>> { typedef ChunkContainer<AReal<T>, 16> type; };
template <class T> struct TapeContainerTraits<FReal<T>> { typedef ChunkContainer<FReal<T>, 16> type; };
template <> struct TapeContainerTraits<std::pair<unsigned, unsigned>> { typedef ChunkContainer<std::pair<unsigned, unsigned>, 16> type; };
}

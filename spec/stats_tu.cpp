// The headers that define chunk statistics, with every encoder instantiated.
#include "DataMgr/ArrayNoneEncoder.h"
#include "DataMgr/ChunkMetadata.h"
#include "DataMgr/DateDaysEncoder.h"
#include "DataMgr/FixedLengthArrayNoneEncoder.h"
#include "DataMgr/FixedLengthEncoder.h"
#include "DataMgr/NoneEncoder.h"
#include "DataMgr/StringNoneEncoder.h"
template class NoneEncoder<int8_t>;
template class NoneEncoder<int16_t>;
template class NoneEncoder<int32_t>;
template class NoneEncoder<int64_t>;
template class NoneEncoder<uint8_t>;
template class NoneEncoder<uint16_t>;
template class NoneEncoder<float>;
template class NoneEncoder<double>;
template class FixedLengthEncoder<int64_t, int8_t>;
template class FixedLengthEncoder<int64_t, int16_t>;
template class FixedLengthEncoder<int64_t, int32_t>;
template class DateDaysEncoder<int64_t, int16_t>;
template class DateDaysEncoder<int64_t, int32_t>;
template class DateDaysEncoder<int64_t, int64_t>;
template void fillChunkStats<int64_t>(ChunkStats&, const hdk::ir::Type*, int64_t, int64_t, bool);
template void fillChunkStats<double>(ChunkStats&, const hdk::ir::Type*, double, double, bool);

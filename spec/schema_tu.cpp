// Makes the schema catalogue's inline definitions visible to the analyses.
#include "SchemaMgr/SimpleSchemaProvider.h"
namespace {
struct Probe : SimpleSchemaProvider {
  using SimpleSchemaProvider::SimpleSchemaProvider;
 private:
  void use() {
    addTableInfo(1, 1, std::string("t"), false, (size_t)1, (size_t)1, false);
    addColumnInfo(1, 1, 1, std::string("c"), ctx_.int64(), false);
    addRowidColumn(1, 1, 2);
    dropTable(1, 1);
  }
};
}

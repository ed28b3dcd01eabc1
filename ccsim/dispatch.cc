// Entry points into the generated validators, for every message of the corpus.
#include "simtypes.h"
#include "cca.pb.validate.h"
#include "ccb.pb.validate.h"
#include "ccdeep.pb.validate.h"
#include "ccommon.pb.validate.h"
#include "ccforeign.pb.h"

std::vector<Type>& types() { static auto* v = new std::vector<Type>; return *v; }
namespace {
template <class T> bool callC(const google::protobuf::Message& m, std::string* e) { return pgv::Validator<T>::CheckMessage(static_cast<const T&>(m), e); }
template <class T> void add(bool (*v)(const google::protobuf::Message&, std::string*)) {
  types().push_back(Type{T::descriptor(), &T::default_instance(), v, callC<T>});
}
#ifndef DYN
template <class T> bool callV(const google::protobuf::Message& m, std::string* e) { return Validate(static_cast<const T&>(m), e); }
#define REG(T) add<T>(callV<T>);
#else
#define REG(T) add<T>(nullptr);
#endif
}
void add_types() {
  X_SIM_A_CCA(REG)
  X_SIM_B_CCB(REG)
  X_SIM_B_ITEM_CCDEEP(REG)
  X_SIM_COMMON_CCOMMON(REG)
  add<::sim::foreign::Plain>(nullptr);
  add<::sim::foreign::Item>(nullptr);
  add<::sim::foreign::Empty>(nullptr);
  add<::sim::common::Ign>(nullptr);
}

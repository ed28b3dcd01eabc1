#pragma once
#include <google/protobuf/message.h>
#include <string>
#include <vector>
struct Type {
  const google::protobuf::Descriptor* d;
  const google::protobuf::Message* proto;
  bool (*validate)(const google::protobuf::Message&, std::string*);   // the generated function; may be missing
  bool (*check)(const google::protobuf::Message&, std::string*);      // dispatch through the registry
};
std::vector<Type>& types();

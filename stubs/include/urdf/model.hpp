#pragma once
#include <string>
#include "urdf_model/model.h"
#include "urdf_parser/urdf_parser.h"
namespace urdf
{
class Model : public ModelInterface
{
public:
  bool initString(const std::string & s)
  {
    ModelInterfaceSharedPtr m = parseURDF(s);
    if (!m) return false;
    static_cast<ModelInterface &>(*this) = *m;
    return true;
  }
};
}

// C17: links keep both ends and the weight
#include "vf.h"
#include "linkworld.h"
using namespace vfm_;
namespace {
template <class LC>
void run() {
  LinkWorld<LC> w;
  vf::run(w, [](auto& x) { x.op(vf::choose(LinkWorld<LC>::nOps)); });
}
template <class LC, class L>
void names(const std::string& from, const std::string& to) {
  LC c;
  const std::string coll = "podio::LinkCollection<" + from + "," + to + ">";
  const std::string val = "podio::Link<" + from + "," + to + ">";
  VF_EQ(std::string(c.getTypeName()), coll, "type-name");
  VF_EQ(std::string(LC::typeName), coll, "type-name");
  VF_EQ(std::string(c.getValueTypeName()), val, "value-type-name");
  VF_EQ(std::string(L::typeName), val, "value-type-name");
  VF_EQ(std::string(c.getDataTypeName()), std::string("podio::LinkData"), "data-type-name");
  VF_EQ(c.getDatamodelRegistryIndex(), static_cast<size_t>(podio::DatamodelRegistry::NoDefinitionNecessary), "registry-index");
  const auto rel = podio::DatamodelRegistry::instance().getRelationNames(coll);
  VF_EQ(rel.relations.size(), 2u, "relation-names");
  VF_EQ(std::string(rel.relations[0]), std::string("from"), "relation-names");
  VF_EQ(std::string(rel.relations[1]), std::string("to"), "relation-names");
  VF_EQ(rel.vectorMembers.size(), 0u, "relation-names");
}
} // namespace
VF_SCENARIO(hit_cluster, 3, 5) { run<HCLinkColl>(); }
VF_SCENARIO(cluster_cluster, 4, 5) { run<CCLinkColl>(); }
VF_SCENARIO(any_hit, 4, 5) { run<AHLinkColl>(); }
VF_SCENARIO(definitions, 1, 1) {
  names<HCLinkColl, HitClusterLink>("Hit", "Cluster");
  names<CCLinkColl, ClusterClusterLink>("Cluster", "Cluster");
  names<AHLinkColl, AnyHitLink>("AnyObj", "Hit");
}

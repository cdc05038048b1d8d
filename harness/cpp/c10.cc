// C10: handles and collections never leak, dangle or free twice
#include "vf.h"
#include "linkworld.h"
#include "world.h"
#include "podio/CollectionBufferFactory.h"

using namespace vfm_;
namespace {
// objects outside collections
void handleOps(World& w) {
  switch (vf::choose(17)) {
  case 0:
    return w.newCluster(0);
  case 1:
    return w.defaultCluster(1);
  case 2:
    return w.copyMC(0, 1);
  case 3:
    return w.moveMC(1, 0);
  case 4:
    return w.swapMC();
  case 5:
    return w.freeze(0, 0);
  case 6:
    return w.freeze(1, 1);
  case 7:
    return w.copyC(0, 1);
  case 8:
    return w.dropMC(0);
  case 9:
    return w.dropC(0);
  case 10:
    return w.newHit();
  case 11:
    return w.addHit(w.liveMC());
  case 12:
    return w.addSub(w.liveMC());
  case 13:
    return w.setParent(w.liveMC());
  case 14:
    return w.clone(0, vf::flip());
  case 15:
    return w.iface(0);
  case 16:
    return w.dropMH();
  }
}
void collectionOps(World& w) {
  switch (vf::choose(20)) {
  case 0:
    return w.newCluster(0);
  case 1:
    return w.create(0, 0, true);
  case 2:
    return w.create(1, 1, false);
  case 3:
    return w.push(0, true, 0);
  case 4:
    return w.push(1, true, 0);
  case 5:
    return w.push(1, true, 1);
  case 6:
    return w.setSubset(1, true);
  case 7:
    return w.clear(0);
  case 8:
    return w.clear(1);
  case 9:
    return w.moveConstruct(0);
  case 10:
    return w.moveAssign(0, 1);
  case 11:
    return w.destroy(0);
  case 12:
    return w.destroy(1);
  case 13:
    return w.element(0, vf::flip());
  case 14:
    return w.dropMC(0);
  case 15:
    return w.addSub(w.liveMC());
  case 16:
    return w.setParent(w.liveMC());
  case 17:
    return w.clone(1, true);
  case 18:
    return w.iface(0);
  case 19:
    return w.moveAssign(1, 1 - 1);
  }
}
} // namespace

VF_SCENARIO(handles, 5, 6) {
  World w;
  vf::run(w, handleOps);
}
VF_SCENARIO(collections, 4, 6) {
  World w;
  vf::run(w, collectionOps);
}
// buffers that were made for reading: given back unused, or taken over by a collection
VF_SCENARIO(buffers, 1, 1) {
  const std::string_view types[] = {"HitCollection", "ClusterCollection", "vf::PadCollection", "vf::TrackCollection", HCLinkColl::typeName, CCLinkColl::typeName, AHLinkColl::typeName,
                                    podio::UserDataCollection<double>::typeName, podio::UserDataCollection<int16_t>::typeName};
  const std::string type(types[vf::choose(std::size(types))]);
  const bool subset = vf::flip();
  std::optional<podio::CollectionReadBuffers> b;
  unsigned v = 3;
  for (; v > 0 && !b; --v) {
    b = podio::CollectionBufferFactory::instance().createBuffers(type, v, subset);
  }
  VF_ASSERT(b, "buffers-for-known-type");
  const int use = vf::choose(6);
  vf::trace("buffers of %s%s, use %d", type.c_str(), subset ? " (subset)" : "", use);
  if (use == 0) {
    b->deleteBuffers(*b);
    VF_ASSERT(!b->data && !b->references && !b->vectorMembers, "deleted");
    return;
  }
  auto coll = b->createCollection(std::move(*b), subset);
  VF_EQ(std::string(coll->getTypeName()), type, "collection-type");
  if (use > 1) {
    coll->prepareAfterRead();
  }
  if (use == 3) {
    coll->prepareForWrite();
    (void)coll->getBuffers();
  } else if (use == 4) {
    coll->clear();
  } else if (use == 5) {
    podio::Frame f;
    f.put(std::move(coll), "x");
    VF_EQ(f.get("x")->size(), size_t(0), "size");
  }
}
// the same for links
VF_SCENARIO(links, 3, 4) {
  LinkWorld<AHLinkColl> w;
  vf::run(w, [](auto& x) { x.op(vf::choose(LinkWorld<AHLinkColl>::nOps)); });
}
VF_SCENARIO(links_same, 3, 4) {
  LinkWorld<CCLinkColl> w;
  vf::run(w, [](auto& x) { x.op(vf::choose(LinkWorld<CCLinkColl>::nOps)); });
}
// objects that a Frame owns, made here or read back
VF_SCENARIO(frames, 4, 5) {
  const bool readBack = vf::flip();
  std::optional<podio::Frame> f;
  f.emplace();
  std::string want;
  {
    HitCollection hc;
    ClusterCollection cc, sub;
    AHLinkColl lc;
    podio::UserDataCollection<double> ud;
    sub.setSubsetCollection();
    for (int i = 0; i < 2; ++i) {
      hc.create().energy(i);
    }
    for (int i = 0; i < 2; ++i) {
      auto c = cc.create();
      c.energy(10 + i);
      c.addhits(hc[i]);
      c.addcounts(i);
      c.addpoints({});
      c.seed(hc[1 - i]);
      ud.push_back(i);
    }
    cc[0].addsubs(cc[1]);
    cc[1].parent(cc[0]);
    sub.push_back(cc[1]);
    auto l = lc.create();
    l.setFrom(cc[1]);
    l.setTo(hc[0]);
    auto a = f->put(std::move(hc), "hits").size();
    (void)a;
    f->put(std::move(cc), "clusters");
    f->put(std::move(sub), "sub");
    f->put(std::move(lc), "links");
    f->put(std::move(ud), "ud");
  }
  for (auto n : {"hits", "clusters", "sub", "links", "ud"}) {
    want += describe(f->get(n));
  }
  if (readBack) {
    vf::trace("read back");
    auto st = storeFrame(*f, {"hits", "clusters", "sub", "links", "ud"});
    f.emplace(makeFrame(st));
  }
  Cluster c = Cluster::makeEmpty();
  Hit h = Hit::makeEmpty();
  MutableCluster mc = World::emptied<MutableCluster>();
  AnyObj a = AnyObj::makeEmpty();
  AnyHitLink l = AnyHitLink::makeEmpty();
  MutableAnyHitLink ml = LinkWorld<AHLinkColl>::emptied();
  std::optional<ClusterCollection> own, ssub;
  std::string mcWant;
  auto mcDesc = [&] { return plain(Cluster(mc)) + std::to_string(mc.counts_size()) + std::to_string(mc.hits_size()) + (mc.seed().isAvailable() ? "s" : ""); };
  for (int i = 0; i < vf::depth(); ++i) {
    vf::step();
    switch (vf::choose(14)) {
    case 0:
      vf::trace("c = clusters[0]");
      c = f->get<ClusterCollection>("clusters")[0];
      break;
    case 1:
      vf::trace("c = sub[0]");
      c = f->get<ClusterCollection>("sub")[0];
      break;
    case 2:
      vf::trace("h = clusters[1].hits(0)");
      h = f->get<ClusterCollection>("clusters")[1].hits(0);
      break;
    case 3:
      if (!c.isAvailable()) {
        vf::prune();
      }
      vf::trace("mc = c.clone()");
      mc = c.clone();
      break;
    case 4:
      vf::trace("mc = new, with relations to c and h");
      mc = MutableCluster(77., 7);
      if (c.isAvailable()) {
        mc.addsubs(c);
        mc.parent(c);
      }
      if (h.isAvailable()) {
        mc.addhits(h);
        mc.seed(h);
      }
      break;
    case 5:
      vf::trace("a = links[0].getFrom()");
      a = f->get<AHLinkColl>("links")[0].getFrom();
      break;
    case 6:
      vf::trace("l = links[0]; ml = l.clone()");
      l = f->get<AHLinkColl>("links")[0];
      ml = l.clone();
      break;
    case 7: {
      vf::trace("frame moved");
      auto t = std::make_unique<podio::Frame>(std::move(*f));
      f.reset();
      f.emplace(std::move(*t));
      break;
    }
    case 8:
      if (!mc.isAvailable() || own || mc.getObjectID().index >= 0) {
        vf::prune();
      }
      vf::trace("own collection takes mc");
      own.emplace();
      own->push_back(mc);
      break;
    case 9:
      if (!c.isAvailable() || ssub) {
        vf::prune();
      }
      vf::trace("subset collection takes c");
      ssub.emplace();
      ssub->setSubsetCollection();
      ssub->push_back(c);
      break;
    case 10:
      if (!own || f->get("own")) {
        vf::prune();
      }
      vf::trace("frame takes the own collection");
      f->put(std::move(*own), "own");
      own.reset();
      break;
    case 11:
      if (!own) {
        vf::prune();
      }
      vf::trace("own collection destroyed");
      own.reset();
      mc = World::emptied<MutableCluster>();
      break;
    case 12:
      vf::trace("write the frame");
      storeFrame(*f, {"hits", "clusters", "sub", "links", "ud"});
      break;
    case 13: {
      vf::trace("move a frame over another one");
      podio::Frame g;
      HitCollection x;
      x.create();
      g.put(std::move(x), "x");
      g = std::move(*f);
      f.emplace(std::move(g));
      break;
    }
    }
    // everything that is alive reads the same as before
    std::string now;
    for (auto n : {"hits", "clusters", "sub", "links", "ud"}) {
      now += describe(f->get(n));
    }
    VF_EQ(now, want, "frame-contents-changed");
    if (mc.isAvailable()) {
      mcDesc();
      full(Cluster(mc));
    }
    full(c);
    full(h);
    plain(a);
    full(l);
    full(AnyHitLink(ml));
  }
  switch (vf::choose(3)) {
  case 0:
    vf::trace("the frame goes first");
    // whatever is in no collection still has its own values
    if (mc.isAvailable() && mc.getObjectID().index < 0) {
      mcWant = plain(Cluster(mc)) + std::to_string(mc.counts_size());
      f.reset();
      VF_EQ(plain(Cluster(mc)) + std::to_string(mc.counts_size()), mcWant, "survivor-changed");
    } else {
      f.reset();
    }
    own.reset();
    ssub.reset();
    break;
  case 1:
    vf::trace("the handles go first");
    c.unlink(), h.unlink(), mc.unlink(), a.unlink(), l.unlink(), ml.unlink();
    ssub.reset();
    f.reset();
    break;
  case 2:
    vf::trace("the other collections go first");
    ssub.reset();
    own.reset();
    mc.unlink();
    c.unlink();
    f.reset();
    break;
  }
}

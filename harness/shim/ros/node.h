// The part of roscpp a node talks to: parameters, topics and subscriptions, all inside one process.
#ifndef SHIM_ROS_NODE
#define SHIM_ROS_NODE
#include <any>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeindex>
#include <vector>
#include <boost/bind/bind.hpp>
#include <boost/shared_ptr.hpp>
#include <ros/ros.h>
using namespace boost::placeholders;
namespace ros_shim
{
struct Published {
  std::string topic;
  std::any message;  // a boost::shared_ptr<const M> for what was published as a pointer, else an M
};
// the world outside of the node; the harness fills and reads it
struct World {
  std::map<std::string, std::any> params;  // private parameters: std::string, double, bool, int
  std::map<std::string, std::string> outer;  // parameters above, found by searchParam only: name -> value
  std::vector<Published> published;
  std::map<std::string, std::type_index> advertised;
  struct Sub {
    std::string topic;
    std::type_index type;
    std::function<void(const std::any &)> call;  // takes a boost::shared_ptr<const M>
    bool live = true;
  };
  std::vector<std::shared_ptr<Sub>> subs;
  bool spun = false;
  // hands a message to everybody who listens
  template <typename M> int deliver(const std::string &topic, const boost::shared_ptr<const M> &m)
  {
    int n = 0;
    for (auto &s : subs)
      if (s->live && s->topic == topic) {
        if (s->type != std::type_index(typeid(M))) throw std::runtime_error("subscribed to another type: " + topic);
        s->call(std::any(m));
        ++n;
      }
    return n;
  }
  void reset() { *this = World(); }
};
inline World &world() { static World w; return w; }
inline std::string absolute(const std::string &t) { return t.empty() || t[0] == '/' ? t : "/" + t; }
}
namespace ros
{
class Publisher
{
public:
  Publisher() {}
  explicit Publisher(const std::string &t) : topic_(t) {}
  template <typename M> void publish(const M &m) const
  {
    if (topic_.empty()) throw std::runtime_error("published before advertising");
    ros_shim::world().published.push_back({topic_, std::any(m)});
  }

private:
  std::string topic_;
};
class Subscriber
{
public:
  std::shared_ptr<ros_shim::World::Sub> sub;
};
class NodeHandle
{
public:
  NodeHandle() {}
  explicit NodeHandle(const std::string &ns) : ns_(ns) {}
  bool searchParam(const std::string &key, std::string &result) const
  {
    if (ros_shim::world().params.count(key)) { result = "/node/" + key; return true; }
    if (ros_shim::world().outer.count(key)) { result = "/" + key; return true; }
    return false;
  }
  bool getParam(const std::string &key, std::string &v) const
  {
    auto &w = ros_shim::world();
    std::string k = key.substr(key.rfind('/') == std::string::npos ? 0 : key.rfind('/') + 1);
    bool global = key == "/" + k;
    if (global) {
      auto it = w.outer.find(k);
      if (it == w.outer.end()) return false;
      v = it->second;
      return true;
    }
    auto it = w.params.find(k);
    if (it == w.params.end() || it->second.type() != typeid(std::string)) return false;
    v = std::any_cast<std::string>(it->second);
    return true;
  }
  template <typename T> T param(const std::string &key, const T &def) const
  {
    T v = def;
    if (ns_ == "~") get(key, v);
    return v;
  }
  template <typename T> bool param(const std::string &key, T &v, const T &def) const { v = param<T>(key, def); return ros_shim::world().params.count(key) > 0; }
  template <typename M> Publisher advertise(const std::string &topic, std::uint32_t, bool = false)
  {
    std::string t = ns_ == "~" ? "/node/" + topic : ros_shim::absolute(topic);
    ros_shim::world().advertised.insert({t, std::type_index(typeid(M))});
    return Publisher(t);
  }
  template <typename M, typename F> Subscriber subscribe(const std::string &topic, std::uint32_t, F f)
  {
    auto s = std::make_shared<ros_shim::World::Sub>(ros_shim::World::Sub{ros_shim::absolute(topic), std::type_index(typeid(M)), [f](const std::any &a) mutable { f(std::any_cast<boost::shared_ptr<const M>>(a)); }});
    ros_shim::world().subs.push_back(s);
    Subscriber r;
    r.sub = s;
    return r;
  }

private:
  std::string ns_;
  template <typename T> void get(const std::string &key, T &v) const
  {
    auto it = ros_shim::world().params.find(key);
    if (it == ros_shim::world().params.end()) return;
    if (it->second.type() == typeid(T)) v = std::any_cast<T>(it->second);
    else if constexpr (std::is_same<T, double>::value) {  // the parameter server converts whole numbers
      if (it->second.type() == typeid(int)) v = std::any_cast<int>(it->second);
    }
  }
};
inline void init(int &, char **, const std::string &) {}
inline void spin() { ros_shim::world().spun = true; }
}
#endif

#include <lru/lru.hpp>
#include <string>
#include <vector>
struct K{int i; bool operator==(const K&o)const{return i==o.i;}  bool operator!=(const K&o)const{return i!=o.i;}};
struct H{size_t operator()(const K&)const{return 0;}};
struct E{bool operator()(const K&a,const K&b)const{return a.i==b.i;}};
struct KS{int i; bool operator==(const KS&o)const{return i==o.i;}};
namespace std{template<> struct hash<K>{size_t operator()(const K&)const{return 0;}};}
template class LRU::Cache<int,std::string>;
template class LRU::Cache<K,int>;
template class LRU::TimedCache<int,std::string>;
template class LRU::TimedCache<int,int,std::chrono::seconds>;
template class LRU::Statistics<int>;
template<class C> void ops(C& c, const C& cc){
  auto u=c.begin(); auto uc=cc.begin(); auto o=c.ordered_begin(); auto oc=cc.ordered_begin();
  typename C::UnorderedIterator ui=c.begin(); typename C::OrderedIterator oi=c.ordered_begin();
  ui=u++; oi=o++; uc=u; oc=o; ++u; ++o; --o; oi=o--;
  typename C::OrderedIterator o2(u); typename C::OrderedConstIterator o3(u), o4(uc); o4=o; 
  typename C::OrderedConstIterator o5=o;  typename C::UnorderedConstIterator u5=u;
  bool b= u==u; b=u==uc; b=uc==u; b=uc==uc; b=u==o; b=u==oc; b=uc==o; b=uc==oc; b=o==u; b=o==uc; b=oc==u; b=oc==uc; b=o==o;b=o==oc;b=oc==o;b=oc==oc;
  b= u!=u; b=u!=uc; b=uc!=u; b=uc!=uc; b=u!=o; b=u!=oc; b=uc!=o; b=uc!=oc; b=o!=u; b=o!=uc; b=oc!=u; b=oc!=uc; b=o!=o;b=o!=oc;b=oc!=o;b=oc!=oc;
  (void)b;
  *u;*uc;*o;*oc; u->key();u->first;u->second; o->key();o->value(); oc->value(); uc->value(); u.entry();u.key();u.value();uc.entry();uc.key();uc.value();o.entry();o.key();o.value();oc.entry();oc.key();oc.value();
  u=c.end(); o=c.ordered_end(); oc=c.ordered_end(); uc=c.end(); swap(u,ui); swap(o,oi); u.swap(ui); o.swap(oi);
  u=std::move(ui); o=std::move(oi); auto u9=std::move(u); auto o9=std::move(o); auto uc9=std::move(uc); auto oc9=std::move(oc); uc=std::move(uc9); oc=std::move(oc9);
  swap(uc,uc9); swap(oc,oc9);
  c.erase(uc);c.erase(oc);c.erase(u);c.erase(o); c.is_valid(u);c.is_valid(o);c.is_valid(oc);c.throw_if_invalid(u);c.throw_if_invalid(o);
  c.emplace(std::piecewise_construct,std::make_tuple(1),std::make_tuple("x"));
  c.emplace(std::piecewise_construct,std::forward_as_tuple(1),std::forward_as_tuple("x"));
  c.emplace(1,"x"); c.insert(1,"x"); c.insert({{1,"x"},{2,"y"}});
  std::vector<std::pair<int,std::string>> v; const auto& cv=v; c.insert(v);c.insert(cv);c.insert(v.begin(),v.end()); c.insert(std::move(v)); c=v; c=cv; c=std::move(v); c={{1,"a"}};
  C d(cc); C e(c); C f(std::move(d)); e=c; e=cc; e=std::move(f); swap(e,f); e.swap(f); b=c==cc; b=c!=cc;
  c.monitor(); c.monitor(1,2); c.monitor(std::make_shared<LRU::Statistics<int>>()); auto sp=c.shared_stats(); c.monitor(sp);
  c.hit_callback([](const int&,const std::string&){}); c.miss_callback([](const int&){}); c.access_callback([](const int&,bool){});
  for(auto&p:c) (void)p.key(); for(auto&p:cc)(void)p.value();
}
int main(){ LRU::Cache<int,std::string> c; ops(c,c); LRU::TimedCache<int,std::string> t(std::chrono::seconds(1)); ops(t,t);
 std::vector<std::pair<int,std::string>> v;
 LRU::Cache<int,std::string> c1(v),c2(5,v),c3(v.begin(),v.end()),c4(5,v.begin(),v.end()),c5{{1,"a"}},c6(5,{{1,"a"}}),c7(std::move(v)),c8(5,std::move(v));
 auto s=std::chrono::seconds(1);
 LRU::TimedCache<int,std::string> t1(s,v),t2(s,5,v),t3(s,v.begin(),v.end()),t4(s,5,v.begin(),v.end()),t5(s,{{1,"a"}}),t6(s,5,{{1,"a"}}),t7(s,std::move(v)),t8(s,5,std::move(v));
 LRU::wrap([](int x){return x;})(3); LRU::timed_wrap([](int x){return x;}, s)(3); LRU::wrap([](int x,std::string){return x;},5)(3,"a");
}

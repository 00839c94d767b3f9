#include <utility>
#include <cstdarg>
#include <algorithm>
#include <any>
#include <atomic>
#include <barrier>
#include <bit>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <forward_list>
#include <functional>
#include <future>
#include <iostream>
#include <latch>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <mutex>
#include <numeric>
#include <optional>
#include <ranges>
#include <semaphore>
#include <set>
#include <shared_mutex>
#include <stdexcept>
#include <stop_token>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <queue>
#include <source_location>
#include "vs.h"
#define E(n) VS_ENTRY(n)
E(list) { std::list<int> l; l.push_back(1); l.push_front(2); l.splice(l.begin(), std::list<int>{5,6}); l.reverse(); VS_ASSERT(l.size()==4); }
E(map) { std::map<int,int> m; for (int i=0;i<6;i++) m[i*7%6]=i; int s=0; for (auto&[k,v]:m) s=s*3+k; m.erase(3); VS_ASSERT(m.size()==5);}
E(set) { std::set<int> m; for (int i=0;i<6;i++) m.insert(i*7%6);  VS_ASSERT(m.contains(3));}
E(umap) { std::unordered_map<int,int> m; for (int i=0;i<20;i++) m[i*7]=i; VS_ASSERT(m.find(14)->second==2); m.erase(14); VS_ASSERT(m.size()==19);}
E(ustr) { std::unordered_set<std::string> m; m.insert("abc"); VS_ASSERT(m.contains("abc")); }
E(str) { std::string s="hello"; s+=" world this is long"; s.append(3,'x'); VS_ASSERT(s.find("world")==6); std::string t=s.substr(3)+std::to_string(42); VS_ASSERT(t.size()>4); VS_ASSERT(s!=t && s<=s);}
E(deque) { std::deque<int> d; for (int i=0;i<200;i++) d.push_back(i); d.pop_front(); VS_ASSERT(d.front()==1);}
E(vec) { std::vector<int> d; for (int i=0;i<20;i++) d.push_back(i); std::erase_if(d,[](int x){return x%2;}); d.insert(d.begin()+2,7); d.reserve(100); d.shrink_to_fit(); std::sort(d.begin(),d.end(),std::greater<>{}); std::stable_sort(d.begin(),d.end()); VS_ASSERT(d[0]==0);}
E(vat) { std::vector<int> d(3); try { d.at(5)=1; VS_ASSERT(false);} catch (std::out_of_range&e) { VS_ASSERT(e.what()!=nullptr);} }
E(sptr) { auto p=std::make_shared<int>(3); std::weak_ptr<int> w=p; auto q=p; p.reset(); VS_ASSERT(*w.lock()==3); q.reset(); VS_ASSERT(w.expired()); std::shared_ptr<int> z(new int(4)); }
E(func) { int x=3; std::function<int(int)> f=[&](int y){return x+y;}; VS_ASSERT(f(2)==5); std::function<void()> g; try { g(); } catch(std::bad_function_call&){x=9;} VS_ASSERT(x==9);  }
E(any) { std::any a=5; VS_ASSERT(std::any_cast<int>(a)==5); try { std::any_cast<long>(a); VS_ASSERT(false);} catch(std::bad_any_cast&){} }
E(opt) { std::optional<int> o; try { o.value(); VS_ASSERT(false);} catch(std::bad_optional_access&){} o=3; VS_ASSERT(o.value_or(1)==3);}
E(var) { std::variant<int,std::string> v; v="abc"; std::visit([](auto&x){(void)x;},v); try { std::get<0>(v); VS_ASSERT(false);} catch(std::bad_variant_access&){} }
static std::once_flag of; static int once_n;
E(once) { std::thread t([]{std::call_once(of,[]{once_n++;});}); std::call_once(of,[]{once_n++;}); t.join(); VS_ASSERT(once_n==1);}
E(sem) { static std::counting_semaphore<4> s(0); static int d; std::thread t([]{d=1; s.release();}); s.acquire(); VS_ASSERT(d==1); t.join();}
E(semt) { static std::binary_semaphore s(1); VS_ASSERT(s.try_acquire()); s.release(); }
E(latch) { static std::latch s(1); static int d; std::thread t([]{d=1; s.count_down();}); s.wait(); VS_ASSERT(d==1); t.join();}
E(barrier) { static std::barrier s(2); static int d; std::thread t([]{d=1; s.arrive_and_wait();}); s.arrive_and_wait(); VS_ASSERT(d==1); t.join();}
E(jthr) { static int d; { std::jthread t([](std::stop_token s){ while(!s.stop_requested()) std::this_thread::yield(); d=1;}); } VS_ASSERT(d==1);}
E(stopcb) { std::stop_source s; int n=0; { std::stop_callback c(s.get_token(),[&]{n++;}); s.request_stop(); } VS_ASSERT(n==1); }
E(shm) { static std::shared_mutex m; static int d; std::thread t([]{std::unique_lock l(m); d++;}); { std::shared_lock l(m); (void)d; } t.join(); VS_ASSERT(d==1);}
E(rmtx) { static std::recursive_mutex m; std::lock_guard a(m); std::lock_guard b(m);}
E(tmtx) { static std::timed_mutex m; VS_ASSERT(m.try_lock_for(std::chrono::milliseconds(1))); m.unlock();}
E(slock) { static std::mutex a,b; std::thread t([]{std::scoped_lock l(b,a);}); {std::scoped_lock l(a,b);} t.join();}
E(cvany) { static std::mutex m; static std::condition_variable_any c; static bool r; std::thread t([]{ {std::lock_guard l(m); r=true;} c.notify_all();}); {std::unique_lock l(m); c.wait(l,[]{return r;});} t.join();}
E(cvfor) { static std::mutex m; static std::condition_variable c; static bool r; std::thread t([]{ {std::lock_guard l(m); r=true;} c.notify_one();}); {std::unique_lock l(m); while(!c.wait_for(l,std::chrono::milliseconds(5),[]{return r;})){} } t.join();}
E(sleep) { std::this_thread::sleep_for(std::chrono::milliseconds(5)); std::this_thread::yield(); auto t=std::chrono::steady_clock::now(); (void)t; }
E(aflag) { static std::atomic_flag f; static int d; std::thread t([]{d=1; f.test_and_set(); f.notify_all();}); f.wait(false); VS_ASSERT(d==1); t.join();}
E(aref) { static int x; std::thread t([]{std::atomic_ref(x).fetch_add(1);}); std::atomic_ref(x).fetch_add(1); t.join(); VS_ASSERT(x==2);}
E(fence) { static std::atomic<int> f; static int d; std::thread t([]{d=1; std::atomic_thread_fence(std::memory_order_release); f.store(1,std::memory_order_relaxed);}); while(!f.load(std::memory_order_relaxed)) std::this_thread::yield(); std::atomic_thread_fence(std::memory_order_acquire); VS_ASSERT(d==1); t.join();}
E(spin) { static std::atomic_flag f; static int d; auto w=[]{ while(f.test_and_set(std::memory_order_acquire)); d++; f.clear(std::memory_order_release);}; std::thread t(w); w(); t.join(); VS_ASSERT(d==2);}
E(fut) { std::promise<int> p; auto f=p.get_future(); std::thread t([&]{p.set_value(3);}); VS_ASSERT(f.get()==3); t.join();}
E(futa) { auto f=std::async(std::launch::async,[]{return 3;}); VS_ASSERT(f.get()==3); }
E(asp) { static std::atomic<std::shared_ptr<int>> p; p.store(std::make_shared<int>(3)); VS_ASSERT(*p.load()==3); p.store(nullptr);}
E(uncaught) { VS_ASSERT(std::uncaught_exceptions()==0); struct g{int*p; ~g(){*p=std::uncaught_exceptions();}}; int n=0; try { g x{&n}; throw 1;} catch(int){} VS_ASSERT(n==1);}
E(eptr) { auto p=std::make_exception_ptr(std::runtime_error("x")); try { std::rethrow_exception(p);} catch(std::exception&e){ VS_ASSERT(e.what()[0]=='x');} auto q=p; VS_ASSERT(q==p);}
E(nested) { try { try { throw 1; } catch(...) { std::throw_with_nested(std::logic_error("a")); } } catch (std::logic_error&e) { try { std::rethrow_if_nested(e);} catch(int i){ VS_ASSERT(i==1);} } }
E(rethrow) { int n=0; try { try { throw 1; } catch(...) { n++; throw; } } catch (int) { n++; } VS_ASSERT(n==2); }
E(mono) { char b[64]; std::pmr::monotonic_buffer_resource r(b,64); std::pmr::vector<int> v(&r); for (int i=0;i<20;i++) v.push_back(i); VS_ASSERT(v[19]==19);}
E(poolr) { std::pmr::unsynchronized_pool_resource r; std::pmr::vector<int> v(&r); for (int i=0;i<20;i++) v.push_back(i); }
E(nullr) { try { (void)std::pmr::null_memory_resource()->allocate(4); VS_ASSERT(false);} catch(std::bad_alloc&){} }
E(defr) { auto*o=std::pmr::get_default_resource(); VS_ASSERT(o==std::pmr::new_delete_resource()); std::pmr::set_default_resource(nullptr); VS_ASSERT(*o==*o);}
E(align) { char b[64]; void*p=b; size_t s=64; VS_ASSERT(std::align(32,8,p,s)); }
E(mem) { char a[16],b[16]; memset(a,1,16); memcpy(b,a,16); VS_ASSERT(!memcmp(a,b,16)); memmove(a+1,a,8); VS_ASSERT(strlen("abc")==3); VS_ASSERT(!strcmp("a","a")); VS_ASSERT(memchr(a,1,16)); }
E(io) { printf("x %d\n",3); std::cout<<"x"<<3<<std::endl; fprintf(stderr,"x"); std::cerr<<"y\n"; fflush(stdout); puts("a"); }
E(snp) { char b[32]; snprintf(b,32,"%d",42); }
E(tl) { struct X{int v=1; ~X(){v=0;}}; static thread_local X x; std::thread t([]{x.v++;}); t.join(); VS_ASSERT(x.v==1);}
E(pq) { std::priority_queue<int> q; q.push(3); q.push(5); VS_ASSERT(q.top()==5); std::queue<int> r; r.push(1); r.pop();}
E(rng) { std::vector<int> v{1,2,3,4}; int s=0; for (int x: v|std::views::filter([](int x){return x%2==0;})|std::views::transform([](int x){return x*x;})|std::views::reverse) s+=x; VS_ASSERT(s==20); VS_ASSERT(std::ranges::all_of(v,[](int x){return x>0;})); VS_ASSERT(std::accumulate(v.begin(),v.end(),0)==10); auto it=std::ranges::find_if(v,[](int x){return x==3;}); VS_ASSERT(it-v.begin()==2); std::ranges::reverse(v); std::rotate(v.begin(),v.begin()+1,v.end()); }
E(bits) { VS_ASSERT(std::bit_ceil(5u)==8&&std::popcount(7u)==3&&std::countl_zero(1u)==31&&std::has_single_bit(8u)&&std::bit_width(8u)==4); }
E(bitsym) { unsigned x=vs_sym("x",16); VS_ASSERT(std::bit_ceil(x|1u)>=x); VS_ASSERT(std::popcount(x)<=16); VS_ASSERT(std::countr_zero(x|1u)==0); VS_ASSERT(std::bit_width(x)<=16);}
E(div) { auto r=std::div(7,2); VS_ASSERT(r.quot==3); VS_ASSERT(std::abs(-3)==3); VS_ASSERT(std::gcd(4,6)==2); VS_ASSERT(std::midpoint(2,4)==3); }
E(ovf) { size_t r; VS_ASSERT(__builtin_mul_overflow((size_t)-1,(size_t)2,&r)); VS_ASSERT(!__builtin_add_overflow((size_t)1,(size_t)2,&r)); }
E(sl) { auto l=std::source_location::current(); VS_ASSERT(l.line()>0);}
E(hash) { VS_ASSERT(std::hash<void*>{}(nullptr)==0); VS_ASSERT(std::hash<int>{}(3)==3); (void)std::hash<std::thread::id>{}(std::this_thread::get_id()); (void)std::hash<std::string>{}("a"); }
struct B { virtual ~B()=default; virtual int f(){return 1;} }; struct D:B { int f() override {return 2;} };
E(dyn) { std::unique_ptr<B> b=std::make_unique<D>(); VS_ASSERT(dynamic_cast<D*>(b.get())); VS_ASSERT(b->f()==2); VS_ASSERT(typeid(*b)==typeid(D)); VS_ASSERT(!dynamic_cast<D*>(std::make_unique<B>().get())); }
E(fl) { std::forward_list<int> l{1,2}; l.push_front(0); l.reverse(); }
E(uq) { auto p=std::make_unique<int[]>(4); p[0]=1; std::unique_ptr<void,void(*)(void*)> q(malloc(4),[](void*p){free(p);}); }
E(cal) { void*p=calloc(2,4); p=realloc(p,16); free(p); void*q=std::aligned_alloc(64,128); free(q); void* a=::operator new(8,std::align_val_t(64)); ::operator delete(a,std::align_val_t(64)); }
E(fpt) { double d=vs_choice("k",3); d*=1.5; VS_ASSERT((int)d<=3); float f=1.5f; VS_ASSERT(std::max(f,1.f)==1.5f); }
E(a128) { struct P{void*a; long b;}; static std::atomic<P> p; P x=p.load(); P y{nullptr,1}; VS_ASSERT(p.compare_exchange_strong(x,y)); }
E(tid) { std::thread t([]{}); VS_ASSERT(t.get_id()!=std::this_thread::get_id()); auto i=t.get_id(); t.join(); VS_ASSERT(t.get_id()==std::thread::id{}); (void)(i<std::thread::id{}); t=std::thread([]{}); t.detach(); t=std::thread([]{}); std::thread u; u.swap(t); u.join(); }
E(vcp) { std::vector<std::function<int()>> v; for (int i=0;i<3;i++) v.emplace_back([i]{return i;}); VS_ASSERT(v[2]()==2); std::vector<bool> b(10); b[3]=true; VS_ASSERT(b[3]); }
E(nothr) { void*p=new(std::nothrow) int; operator delete(p); }
E(env) { (void)getenv("X"); }
E(tup) { auto t=std::tuple_cat(std::make_tuple(1),std::tuple<long,char>{2,'c'}); VS_ASSERT(std::apply([](auto...x){return (x+...);},t)==1+2+'c'); }
E(getm) { auto s=std::bind_front([](int a,int b){return a-b;},5); VS_ASSERT(s(2)==3); VS_ASSERT(std::invoke(std::plus<>{},1,2)==3); auto r=std::ref(s); VS_ASSERT(r(1)==4);}
E(ptrd) { int a[4]; std::iota(a,a+4,1); VS_ASSERT(std::count(a,a+4,2)==1); std::fill_n(a,4,0); std::copy_backward(a,a+2,a+4); std::swap_ranges(a,a+2,a+2); VS_ASSERT(std::equal(a,a+2,a+2)); VS_ASSERT(std::lower_bound(a,a+4,0)==a);}
E(uninit) { alignas(int) char b[16]; auto*p=reinterpret_cast<int*>(b); std::uninitialized_value_construct_n(p,4); std::uninitialized_fill_n(p,4,3); std::destroy_n(p,4); std::construct_at(p,1); std::destroy_at(p);}
E(tmend) { struct T{~T() noexcept(false){throw 1;}}; int n=0; try { T t; } catch(int){n=1;} VS_ASSERT(n==1);}
E(expv) { try { throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); } catch (std::system_error&e) { VS_ASSERT(e.code()); } }
E(expw) { try { throw std::invalid_argument(std::string("abc")+"d"); } catch (std::exception&e) { VS_ASSERT(!strcmp(e.what(),"abcd")); } }
E(rdv) { std::exception_ptr p; try { throw std::length_error("x"); } catch(...) { p=std::current_exception(); } bool k=false; try { if (p) std::rethrow_exception(std::move(p)); } catch (std::logic_error&) { k=true;} VS_ASSERT(k); }
E(chk) { std::chrono::milliseconds a(5); VS_ASSERT(a<std::chrono::seconds(1)); }
E(awf) { static std::atomic<int> n{0}; std::thread t([]{n.store(1); n.notify_one();}); n.wait(0); t.join(); static std::atomic<bool> b; b.store(true); b.wait(false); static std::atomic<size_t> z{1}; z.wait(0); static std::atomic<void*> q{&n}; q.wait(nullptr);}
E(try_lock) { static std::mutex m; { std::unique_lock l(m,std::try_to_lock); VS_ASSERT(l.owns_lock()); } std::unique_lock l(m,std::defer_lock); l.lock(); l.unlock(); VS_ASSERT(m.try_lock()); m.unlock(); }
int main_dummy;
E(term) { VS_ASSERT(std::get_terminate()!=nullptr || true); }
E(quickm) { volatile int x=3; x=x+1; VS_ASSERT(x==4);  std::atomic_signal_fence(std::memory_order_seq_cst); }
E(vla) { int n=vs_choice("n",3); int*p=(int*)__builtin_alloca(4*(n+1)); p[n]=1; VS_ASSERT(p[n]==1); }
E(sw) { int n=vs_sym("n",8); int r=0; switch(n){case 1:r=1;break;case 5:r=5;break;case 200:r=7;break;default:r=-1;} VS_ASSERT(r!=7||n==200); const char*s[3]={"a","b","c"}; VS_ASSERT(s[n%3][0]=='a'+n%3); }
E(vec4) { typedef int v4 __attribute__((vector_size(16))); v4 a={1,2,3,4}; a=a+a; VS_ASSERT(a[2]==6); }
E(tloc) { static thread_local int x=5; std::thread t([]{x=6;}); t.join(); VS_ASSERT(x==5); }
E(bsrch) { std::vector<int> v{5,3,1}; std::ranges::sort(v); VS_ASSERT(std::ranges::binary_search(v,3)); auto m=std::max_element(v.begin(),v.end()); VS_ASSERT(*m==5); std::partition(v.begin(),v.end(),[](int x){return x>2;}); std::unique(v.begin(),v.end()); std::next_permutation(v.begin(),v.end()); auto [a,b]=std::minmax(1,2); VS_ASSERT(a<b); }
E(strv) { std::string_view s="abc"; VS_ASSERT(s.starts_with("ab")); VS_ASSERT(s.find('c')==2); }
E(pmrs) { std::pmr::string s("a string which is long enough to allocate"); s+="x"; std::pmr::polymorphic_allocator<> a; int*p=a.new_object<int>(3); a.delete_object(p); }
E(nexc) { try { std::vector<int> v; v.reserve((size_t)-1); VS_ASSERT(false);} catch(std::length_error&){} }
E(arrnew) { try { volatile size_t n=(size_t)1<<62; auto*p=new int[n]; (void)p; } catch(std::bad_alloc&){} }
E(castex) { try { D d; B&b=d; struct Q:B{}; (void)dynamic_cast<Q&>(b); VS_ASSERT(false);} catch(std::bad_cast&){} }
E(ws) { std::weak_ptr<int> w; try { std::shared_ptr<int> p(w); } catch(std::bad_weak_ptr&) {} struct S:std::enable_shared_from_this<S>{}; auto s=std::make_shared<S>(); auto t=s->shared_from_this(); VS_ASSERT(t.use_count()==2); }
E(quick) { VS_ASSERT(std::this_thread::get_id()==std::this_thread::get_id()); VS_ASSERT(std::thread::hardware_concurrency()>=0u); }
E(nomatch) { int n=0; try { try { throw 1L; } catch (int) { n=1; } } catch (long) { n=2; } VS_ASSERT(n==2); }
E(once2) { static int k=0; auto f=[]{ static int x=++k; return x; }; std::thread t([&]{f();}); f(); t.join(); VS_ASSERT(k==1); }
E(va) { auto f=[](int n,...){ va_list l; va_start(l,n); int r=va_arg(l,int); va_end(l); return r; }; VS_ASSERT(f(1,5)==5); }
E(str2) { std::string a; for (int i=0;i<40;i++) a.push_back('a'); a.insert(3,"zz"); a.erase(1,2); a.resize(100); a.clear(); VS_ASSERT(a.empty()); std::string b(std::move(a)); b.assign("abc"); b.swap(a); VS_ASSERT(a.compare("abc")==0); VS_ASSERT(std::stoi("42")==42); }
E(ctch) { static std::condition_variable c; static std::mutex m; static int st; std::thread t([]{std::unique_lock l(m); st=1; std::notify_all_at_thread_exit(c,std::move(l));}); {std::unique_lock l(m); c.wait(l,[]{return st==1;});} t.join(); }
E(cvst) { std::condition_variable_any c; std::mutex m; std::stop_source s; s.request_stop(); std::unique_lock l(m); VS_ASSERT(!c.wait(l,s.get_token(),[]{return false;})); }
E(tls2) { thread_local std::vector<int> v; v.push_back(1); std::thread t([]{v.push_back(2); VS_ASSERT(v.size()==1);}); t.join(); VS_ASSERT(v.size()==1);}
E(syms) { std::vector<int> v; int n=vs_sym("n",2); v.resize(n); VS_ASSERT(v.size()==(size_t)n); }
E(gl) { std::lock_guard<std::mutex> l(*new std::mutex); }
E(asrt) { volatile int x=1; assert(x==1); }
E(ios) { static std::ostream* os=&std::cerr; (void)os; }
E(rand_) { (void)rand(); }
E(tm) { (void)std::chrono::system_clock::now(); (void)time(nullptr); (void)clock(); }
E(symcmp) { unsigned char a[4],b[4]; for (int i=0;i<4;i++) a[i]=b[i]=(unsigned char)vs_sym("c",8); VS_ASSERT(!memcmp(a,b,4)); VS_ASSERT(std::equal(a,a+4,b)); VS_ASSERT(std::memchr(a,a[0],4)); }
E(copysym) { char a[16]={},b[16]; size_t n=vs_sym("n",4); memset(a,7,n); memcpy(b,a,n); if(n) VS_ASSERT(b[n-1]==7); }
E(umapc) { std::unordered_map<void*,int> m; int x; m[&x]=3; VS_ASSERT(m.count(&x)==1); m.clear(); std::unordered_multimap<int,int> q; q.emplace(1,2); q.rehash(50);}
E(mm) { std::multimap<int,int> m; m.emplace(1,2); m.emplace(1,3); VS_ASSERT(m.count(1)==2); auto n=m.extract(m.begin()); std::map<int,std::unique_ptr<int>> k; k.try_emplace(1,new int(3)); m.lower_bound(1); for (auto it=m.rbegin();it!=m.rend();++it); }
E(sl2) { std::list<std::unique_ptr<int>> l; l.emplace_back(new int); l.remove_if([](auto&p){return !p;}); l.sort(); std::list<std::unique_ptr<int>> k; k.swap(l); k.merge(l); k.unique(); l.splice(l.end(),k,k.begin()); }
E(ost) { std::string s; s+=(char)('a'+vs_sym("c",2)); VS_ASSERT(s.size()==1); }
E(coutx) { std::cout << std::hex << 5.0 << (void*)0 << true << "\n"; }
E(fex) { static std::atomic<double> d{0}; d.fetch_add(1.5); VS_ASSERT(d.load()==1.5); }
E(am) { static std::atomic<int> n{5}; n.fetch_and(4); n.fetch_or(3); n.fetch_xor(1); n^=1; n--; VS_ASSERT(n.exchange(2)==6); }
E(rwl) { static std::shared_timed_mutex m; m.lock_shared(); VS_ASSERT(m.try_lock_shared()); m.unlock_shared(); m.unlock_shared(); VS_ASSERT(m.try_lock()); m.unlock(); }
E(rq) { static std::recursive_timed_mutex m; m.lock(); VS_ASSERT(m.try_lock()); m.unlock(); m.unlock(); }
E(pth) { static pthread_mutex_t m=PTHREAD_MUTEX_INITIALIZER; pthread_mutex_lock(&m); pthread_mutex_unlock(&m); }
E(semtf) { static std::counting_semaphore<3> s(0); VS_ASSERT(!s.try_acquire_for(std::chrono::milliseconds(1))); }
E(futw) { std::promise<void> p; auto f=p.get_future(); VS_ASSERT(f.wait_for(std::chrono::seconds(0))==std::future_status::timeout); p.set_exception(std::make_exception_ptr(3)); int n=0; try { f.get(); } catch(int i) {n=i;} VS_ASSERT(n==3); }
E(pt) { std::packaged_task<int(int)> t([](int x){return x+1;}); auto f=t.get_future(); t(2); VS_ASSERT(f.get()==3); }
E(asyncd) { auto f=std::async(std::launch::deferred,[]{return 3;}); VS_ASSERT(f.get()==3); }
E(bp) { std::promise<int> p; auto f=p.get_future(); { auto q=std::move(p);} try { f.get(); VS_ASSERT(false);} catch(std::future_error&){} }
E(itv) { std::vector<int> v{1}; std::vector<int> w(v); w=v; v=std::move(w); v.assign(3,1); v.pop_back(); v.erase(v.begin()); v.emplace_back(3); v.swap(w); auto s=std::ssize(v); (void)s; VS_ASSERT(v==v); }
E(uw) { struct X{ X(){ if (vs_choice("t",2)) throw 1; } }; try { auto p=std::make_shared<X>(); auto q=std::make_unique<X>(); std::vector<X> v(2); } catch(int){} }
E(mr) { struct R:std::pmr::memory_resource{ void*do_allocate(size_t a,size_t b)override{return std::pmr::new_delete_resource()->allocate(a,b);} void do_deallocate(void*p,size_t a,size_t b)override{std::pmr::new_delete_resource()->deallocate(p,a,b);} bool do_is_equal(const memory_resource&o)const noexcept override{return this==&o;} } r; std::pmr::map<int,int> m(&r); m[1]=2; std::pmr::deque<int> d(&r); d.push_back(1); std::pmr::list<int> l(&r); l.push_back(1); VS_ASSERT(l.size()==1); std::pmr::unordered_map<int,int> u(&r); u[1]=1;}
E(spr) { std::pmr::synchronized_pool_resource r; void*p=r.allocate(8); r.deallocate(p,8); }
E(ha) { std::array<int,3> a{1,2,3}; try { (void)a.at(4); VS_ASSERT(false);} catch(std::out_of_range&){} VS_ASSERT(a[2]==3); }
E(strx) { try { std::string s("a"); (void)s.at(9); VS_ASSERT(false);} catch(std::out_of_range&e){ VS_ASSERT(e.what()[0]); } }
E(rr) { struct W{~W(){}}; std::reference_wrapper<int>* p=nullptr; (void)p; std::pair<int,W> q; (void)q; std::tie(std::ignore)=std::make_tuple(1);}
E(sumsym) { unsigned a=vs_sym("a",8), b=vs_sym("b",8); VS_ASSERT(std::max(a,b)>=std::min(a,b)); VS_ASSERT((a+b)/2<=255); VS_ASSERT(std::bit_cast<int>(a)>=0); }
E(rot) { unsigned a=vs_sym("a",8); VS_ASSERT(std::rotl(a,3)==a*8); VS_ASSERT(__builtin_bswap32(__builtin_bswap32(a))==a); VS_ASSERT(__builtin_ctz(a|256)<=8); VS_ASSERT(__builtin_expect(a<256,1)); }
E(sat) { unsigned a=vs_sym("a",8); VS_ASSERT(std::max(3u,a)>=3); long l=(long)a-300; VS_ASSERT(std::labs(l)==-l); VS_ASSERT((int)(signed char)a<128); }
E(locale_) { (void)std::toupper('a'); (void)isdigit('3'); }
E(err) { errno=0; VS_ASSERT(errno==0); }
E(sigx) { (void)std::strerror(0); }
E(fmt) { (void)std::string("x").c_str(); }
E(gs) { static std::vector<int> g{1,2,3}; VS_ASSERT(g.size()==3); static std::string s="some long string that is allocated on heap"; static std::map<int,int> m{{1,2}}; VS_ASSERT(m[1]==2); }
E(ex2) { struct Ex:std::runtime_error{using runtime_error::runtime_error;}; try { throw Ex("a"); } catch(std::runtime_error& e) { VS_ASSERT(e.what()[0]=='a'); } }
E(noex) { auto f=[]() noexcept(false) {throw 1;}; int n=0; try{f();}catch(...){n=1; try{throw;}catch(int){n=2;}} VS_ASSERT(n==2); }
#include <cstdarg>

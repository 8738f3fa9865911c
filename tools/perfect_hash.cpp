#include <bits/stdc++.h>
using namespace std;
int main(int c,char**v){ // reads words with initial asso from stdin; LIM VMAX seed seconds
  int LIM=atoi(v[1]),VM=atoi(v[2]); mt19937_64 g(atoi(v[3])); double secs=atof(v[4]);
  int N,W; cin>>N; vector<int>a(N); for(auto&x:a)cin>>x; cin>>W; vector<vector<pair<int,int>>> occ(N); vector<int>h(W);
  for(int w=0;w<W;w++){ string s; cin>>s; map<int,int>m; for(int i=0;i<(int)min<size_t>(s.size(),10);i++) m[s[i]+(i==5?4:i==1?2:0)]++; m[s.back()]++; h[w]=s.size(); for(auto&p:m){occ[p.first].push_back({w,p.second}); h[w]+=p.second*a[p.first];} }
  vector<int>k; for(int i=0;i<N;i++) if(occ[i].size())k.push_back(i);
  vector<int>cnt(200000); int col=0; for(int x:h) if(cnt[x]++)col++;
  auto t0=chrono::steady_clock::now(); double T=2; int best=col; long it=0;
  for(;;){ double el=chrono::duration<double>(chrono::steady_clock::now()-t0).count(); if((it++&255)==0){ if(el>secs)break; T=2.0*pow(0.02,el/secs);} 
    int i=k[g()%k.size()]; int nv=g()%3? g()%VM : max(0,min(VM-1,a[i]+(int)(g()%41)-20)); int d=nv-a[i]; if(!d)continue;
    bool ok=true; for(auto&p:occ[i]) if(h[p.first]+d*p.second>LIM||h[p.first]+d*p.second<0){ok=false;break;} if(!ok)continue;
    int oc=col; for(auto&p:occ[i]){ if(--cnt[h[p.first]])col--; } for(auto&p:occ[i]){ h[p.first]+=d*p.second; if(cnt[h[p.first]]++)col++; }
    if(col>oc && exp((oc-col)/T)<(g()%1000000)/1e6){ for(auto&p:occ[i]){ if(--cnt[h[p.first]])col--; } for(auto&p:occ[i]){ h[p.first]-=d*p.second; if(cnt[h[p.first]]++)col++; } } else a[i]=nv;
    if(col<best){best=col;} if(col==0)break; }
  fprintf(stderr,"col %d best %d its %ld\n",col,best,it); for(int x:a)printf("%d ",x); puts(""); return col!=0; }

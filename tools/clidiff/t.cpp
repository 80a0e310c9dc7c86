#include <CLI/App.hpp>
#include <CLI/Config.hpp>
#include "args.h"
#include <iostream>
int main(int c,char**v){ CLI::App app{"x"}; auto a=Args::register_opts(app); try{app.parse(c,v);}catch(const CLI::ParseError&e){std::cout<<"PE "<<e.get_name()<<"\n";return app.exit(e);} 
std::cout<<"["<<a.access_log_path<<"] "<<a.port<<" "<<a.log_level<<" "<<a.cleartext<<" ["<<a.cert_path<<"] ["<<a.key_path<<"] "<<a.static_map.size()<<" "<<a.status_404_file_path<<"\n";
try{a.log_level_enum();}catch(std::exception&e){std::cout<<e.what()<<"\n";} auto k=a.to_server_config(); std::cout<<(bool)k.cert_path<<(bool)k.key_path<<k.cleartext<<"\n";}

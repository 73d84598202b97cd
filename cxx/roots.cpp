// prints the subject of every authority that the load tester trusts when its certificates are those in the file given
#include <cstdio>
#include <fstream>
#include <iterator>
#include <string>
#include <openssl/ssl.h>
#include <pwned-server/loadtest/root_certificates.hpp>

std::string certificatesForTest;

int main(int, char **argv)
{
  std::ifstream in(argv[1], std::ios::binary);
  certificatesForTest.assign(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
  boost::asio::ssl::context ctx(boost::asio::ssl::context::tls_client);
  boost::system::error_code ec;
  load_root_certificates(ctx, ec);
  if (ec) std::printf("error %s\n", ec.message().c_str());
  bool thrown = false;
  try { boost::asio::ssl::context other(boost::asio::ssl::context::tls_client); load_root_certificates(other); } catch (boost::system::system_error &) { thrown = true; }
  if (thrown != bool(ec)) std::printf("the two ways to load them disagree\n");
  STACK_OF(X509_OBJECT) *all = X509_STORE_get0_objects(SSL_CTX_get_cert_store(ctx.native_handle()));
  for (int i = 0; i < sk_X509_OBJECT_num(all); ++i)
    if (X509 *x = X509_OBJECT_get0_X509(sk_X509_OBJECT_value(all, i)))
    {
      char name[256];
      X509_NAME_get_text_by_NID(X509_get_subject_name(x), NID_commonName, name, sizeof name);
      std::printf("%s\n", name);
    }
}

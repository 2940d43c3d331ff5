// name, value to 60 digits: evaluated with mpmath from the definitions
C(e, "2.71828182845904523536028747135266249775724709369995957496697")
C(e_sqr, "7.38905609893065022723042746057500781318031557055184732408713")
C(e_pow_pi, "23.1406926327792690057290863679485473802661062426002119934450")
C(pi, "3.14159265358979323846264338327950288419716939937510582097494")
C(two_pi, "6.28318530717958647692528676655900576839433879875021164194989")
C(two_over_pi, "0.636619772367581343075535053490057448137838582961825794990669")
C(pi_over_two, "1.57079632679489661923132169163975144209858469968755291048747")
C(pi_sqr, "9.86960440108935861883449099987615113531369940724079062641335")
C(inv_pi, "0.318309886183790671537767526745028724068919291480912897495335")
C(tau, "6.28318530717958647692528676655900576839433879875021164194989")
C(log2_e, "1.44269504088896340735992468100189213742664595415298593413545")
C(log10_e, "0.434294481903251827651128918916605082294397005803666566114454")
C(ln_two, "0.693147180559945309417232121458176568075500134360255254120680")
C(ln_ten, "2.30258509299404568401799145468436420760110148862877297603333")
C(sqrt_two, "1.41421356237309504880168872420969807856967187537694807317668")
C(sqrt_three, "1.73205080756887729352744634150587236694280525381038062805581")
C(sqrt_five, "2.23606797749978969640917366873127623544061835961152572427090")
C(sqrt_e, "1.64872127070012814684865078781416357165377610071014801157508")
C(sqrt_pi, "1.77245385090551602729816748334114518279754945612238712821381")
C(sqrt_two_pi, "2.50662827463100050241576528481104525300698674060993831662992")
C(sqrt_two_pi_e, "4.13273135412249293846939188429985264944552191699130845155665")
C(inv_sqrt_pi, "0.564189583547756286948079451560772585844050629328998856844086")
C(cbrt_two, "1.25992104989487316476721060727822835057025146470150798008198")
C(inv_fibonacci, "3.35988566624317755317201130291892717968890513373196848649555")
C(phi, "1.61803398874989484820458683436563811772030917980576286213545")
C(catalan, "0.915965594177219015054603514932384110774149374281672134266498")
C(euler, "0.577215664901532860606512090082402431042159335939923598805767")
C(gauss, "0.834626841674073186281429732799046808993993013490347002449827")
C(plastic, "1.32471795724474602596090885447809734073440405690173336453402")
C(zeta_two, "1.64493406684822643647241516664602518921894990120679843773556")
C(zeta_three, "1.20205690315959428539973816151144999076498629234049888179227")
C(zeta_four, "1.08232323371113819151600369654116790277475095191872690768298")

/* C21: elementary functions of floats */
#include <qlibs.h>
#include <cstring>
#include "vf.h"
using namespace qlibs;
static float bits( uint32_t b ) { float f; std::memcpy( &f, &b, sizeof f ); return f; }
static uint32_t tobits( float f ) { uint32_t b; std::memcpy( &b, &f, sizeof b ); return b; }
static bool nan( float x ) { return x != x; }
static const uint32_t INF = 0x7F800000U;
/* domain errors and poles */
HARNESS( h_domain )
{
    const float x = vf_nd_f32( "x", 0 ); vf_assume( x < 0.0f );
    vf_assert( nan( ffmath::sqrt( x ) ) && nan( ffmath::rSqrt( x ) ), "roots of negative numbers" );
    vf_assert( nan( ffmath::log2( x ) ), "logarithm of negative numbers" );
    vf_reach( "end" );
}
HARNESS( h_domain2 )
{
    const float x = vf_nd_f32( "x", 0 ); vf_assume( x < 0.0f );
    vf_assert( nan( ffmath::log( x ) ) && nan( ffmath::log10( x ) ), "logarithms of negative numbers" );
    vf_reach( "end" );
}
HARNESS( h_domain3 )
{
    const float x = vf_nd_f32( "x", 0 ); vf_assume( x < 1.0f );
    vf_assert( nan( ffmath::acosh( x ) ), "inverse hyperbolic cosine below 1" );
    vf_reach( "end" );
}
HARNESS( h_poles )
{
    const float z = bits( ( vf_nd_u8( "s", 0 ) & 1 ) ? 0x80000000U : 0U );
    vf_assert( ( 0.0f == ffmath::sqrt( z ) ) && ( INF == tobits( ffmath::rSqrt( z ) ) ) && ( ( INF | 0x80000000U ) == tobits( ffmath::log2( z ) ) ) && ( ( INF | 0x80000000U ) == tobits( ffmath::log( z ) ) ), "zero" );
    vf_assert( ( 1.0f == ffmath::exp2( z ) ) && ( 1.0f == ffmath::exp( z ) ) && ( 0.0f == ffmath::sinh( z ) ) && ( 1.0f == ffmath::cosh( z ) ) && ( 0.0f == ffmath::tanh( z ) ) && ( 0.0f == ffmath::atan( z ) ) && ( 0.0f == ffmath::sin( z ) ) && ( 0.0f == ffmath::cbrt( z ) ) && ( INF == tobits( ffmath::rCbrt( z ) ) ), "values at zero" );
    vf_reach( "end" );
}
HARNESS( h_exp2_ends )
{
    const float x = vf_nd_f32( "x", 0 ); vf_assume( ( x > 128.0f ) || ( x <= -126.0f ) );
    vf_assert( tobits( ffmath::exp2( x ) ) == ( ( x > 0.0f ) ? INF : 0U ), "overflow and underflow" );
    vf_reach( "end" );
}
HARNESS( h_pow2 )
{
    const int k = (int)vf_nd_u8( "k", 0 ); vf_assume( ( k >= 2 ) && ( k <= 254 ) );
    const float p = bits( (uint32_t)k << 23 );
    vf_assert( ffmath::exp2( (float)( k - 127 ) ) == p, "whole powers of two" );
    vf_assert( ffmath::log2( p ) == (float)( k - 127 ), "logarithm of powers of two" );
    vf_reach( "end" );
}
HARNESS( h_tanh_ends )
{
    const float x = vf_nd_f32( "x", 0 ); vf_assume( ( ( x > 50.0f ) && ( x < 1.0e30f ) ) || ( ( x < -50.0f ) && ( x > -1.0e30f ) ) );
    vf_assert( ffmath::tanh( x ) == ( ( x > 0.0f ) ? 1.0f : -1.0f ), "saturated" );
    vf_reach( "end" );
}
/* normal numbers: any exponent, mantissas on a grid */
static float normal( uint32_t lo, uint32_t hi ) { const uint32_t m = vf_nd_u8( "m", 0 ) & 31U, e = vf_nd_u8( "e", 0 ); vf_assume( ( e >= lo ) && ( e <= hi ) ); return bits( ( e << 23 ) | ( m << 18 ) ); }
static void outside( float x )
{
    vf_assert( nan( ffmath::asin( x ) ), "arc sine outside of its domain" );
    vf_assert( nan( ffmath::acos( x ) ), "arc cosine outside of its domain" );
    vf_reach( "end" );
}
HARNESS( h_domain4 ) { const float x = vf_nd_f32( "x", 0 ); vf_assume( ( x > 1.0f ) && ( x < 1.0e30f ) ); outside( x ); }
HARNESS( h_domain5 ) { const float x = vf_nd_f32( "x", 0 ); vf_assume( ( x < -1.0f ) && ( x > -1.0e30f ) ); outside( x ); }
HARNESS( h_erf_ends )
{
    const float x = vf_nd_f32( "x", 0 ); vf_assume( x >= 6.912f );
    vf_assert( ( ffmath::erf( x ) == 1.0f ) && ( ffmath::erfc( x ) == 0.0f ), "upper limit" );
    vf_reach( "end" );
}
HARNESS( h_erf_low )
{
    const float x = -normal( 132, 137 );
    vf_assert( ( ffmath::erf( x ) == -1.0f ) && ( ffmath::erfc( x ) == 2.0f ), "lower limit" );
    vf_reach( "end" );
}
static const float ERF_T[ 16 ] = { -0.9999779f, -0.9997946f, -0.9985373f, -0.9919901f, -0.9661051f, -0.8883882f, -0.7111556f, -0.4041169f, 0.0000000f, 0.4041169f, 0.7111556f, 0.8883882f, 0.9661051f, 0.9919901f, 0.9985373f, 0.9997946f };
HARNESS( h_erf )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 15 ); const float x = (float)( k - 8 )*0.375f, r = ffmath::erf( x ), e = r - ERF_T[ k ];
    vf_assert( ( e <= 0.2f ) && ( e >= -0.2f ) && ( r <= 1.0f ) && ( r >= -1.0f ), "error function" );
    if ( 8 == k ) { vf_assert( 0.0f == r, "zero at zero" ); }
    vf_reach( "end" );
}
HARNESS( h_erfc )
{
    const float x = (float)( (int)( vf_nd_u8( "k", 0 ) & 15 ) - 8 )*0.375f;
    vf_assert( ffmath::erfc( x ) == 1.0f - ffmath::erf( x ), "complement" );
    vf_reach( "end" );
}
HARNESS( h_sqrt )
{
    const float x = normal( 1, 254 ), s = ffmath::sqrt( x ); const double q = (double)s*(double)s;
    vf_assert( ( s > 0.0f ) && ( q >= (double)x*0.99999 ) && ( q <= (double)x*1.00001 ), "square root" );
    vf_reach( "end" );
}
HARNESS( h_rsqrt )
{
    const float x = normal( 1, 254 ), s = ffmath::rSqrt( x ); const double q = (double)s*(double)s*(double)x;
    vf_assert( ( s > 0.0f ) && ( q >= 0.996 ) && ( q <= 1.004 ), "reciprocal square root" );
    vf_reach( "end" );
}
HARNESS( h_cbrt )
{
    const float x = normal( 126, 128 ), s = ffmath::cbrt( x ), n = ffmath::cbrt( -x ); const double q = (double)s*(double)s*(double)s;
    vf_assert( ( s > 0.0f ) && ( q >= (double)x*0.9998 ) && ( q <= (double)x*1.0002 ), "cubic root" );
    vf_assert( n == -s, "cubic root of negative numbers" );
    vf_reach( "end" );
}
HARNESS( h_rcbrt )
{
    const float x = normal( 126, 128 ), s = ffmath::rCbrt( x ), n = ffmath::rCbrt( -x ); const double q = (double)s*(double)s*(double)s*(double)x;
    vf_assert( ( s > 0.0f ) && ( q >= 0.9998 ) && ( q <= 1.0002 ) && ( n == -s ), "reciprocal cubic root" );
    vf_reach( "end" );
}
/* values on a grid */
static const double SIN_T[ 64 ] = { -0.9893582466233818, -0.9945987791111761, -0.9379999767747389, -0.8230808790115055, -0.6569865987187891, -0.4500440737806176, -0.21511998808781552, 0.03317921654755682, 0.27941549819892586, 0.5082790774992584, 0.7055403255703919, 0.858934493426592, 0.9589242746631385, 0.999292788975378, 0.977530117665097, 0.8949893582285835, 0.7568024953079282, 0.5715613187423437, 0.35078322768961984, 0.10819513453010837, -0.1411200080598672, -0.38166099205233167, -0.5984721441039565, -0.7780731968879212, -0.9092974268256817, -0.9839859468739369, -0.9974949866040544, -0.9489846193555862, -0.8414709848078965, -0.6816387600233341, -0.479425538604203, -0.24740395925452294, 0.0, 0.24740395925452294, 0.479425538604203, 0.6816387600233341, 0.8414709848078965, 0.9489846193555862, 0.9974949866040544, 0.9839859468739369, 0.9092974268256817, 0.7780731968879212, 0.5984721441039565, 0.38166099205233167, 0.1411200080598672, -0.10819513453010837, -0.35078322768961984, -0.5715613187423437, -0.7568024953079282, -0.8949893582285835, -0.977530117665097, -0.999292788975378, -0.9589242746631385, -0.858934493426592, -0.7055403255703919, -0.5082790774992584, -0.27941549819892586, -0.03317921654755682, 0.21511998808781552, 0.4500440737806176, 0.6569865987187891, 0.8230808790115055, 0.9379999767747389, 0.9945987791111761 };
HARNESS( h_sin )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 63 ); const double r = (double)ffmath::sin( (float)( k - 32 )*0.25f ), e = r - SIN_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( SIN_T[ k ] < 0.0 ) ? -SIN_T[ k ] : SIN_T[ k ];
    vf_assert( m <= 0.001 + 0*w, "value" );
    vf_reach( "end" );
}
static const double COS_T[ 64 ] = { -0.14550003380861354, 0.10379435721925297, 0.3466353178350258, 0.5679241732886948, 0.7539022543433046, 0.8930063446890767, 0.9765876257280235, 0.9994494182244994, 0.960170286650366, 0.8611924171615208, 0.70866977429126, 0.5120854772418407, 0.28366218546322625, 0.03760215288797655, -0.2107957994307797, -0.4460874899137928, -0.6536436208636119, -0.8205593573395608, -0.9364566872907963, -0.9941296760805463, -0.9899924966004454, -0.9243023786324636, -0.8011436155469337, -0.6281736227227391, -0.4161468365471424, -0.17824605564949209, 0.0707372016677029, 0.3153223623952687, 0.5403023058681398, 0.7316888688738209, 0.8775825618903728, 0.9689124217106447, 1.0, 0.9689124217106447, 0.8775825618903728, 0.7316888688738209, 0.5403023058681398, 0.3153223623952687, 0.0707372016677029, -0.17824605564949209, -0.4161468365471424, -0.6281736227227391, -0.8011436155469337, -0.9243023786324636, -0.9899924966004454, -0.9941296760805463, -0.9364566872907963, -0.8205593573395608, -0.6536436208636119, -0.4460874899137928, -0.2107957994307797, 0.03760215288797655, 0.28366218546322625, 0.5120854772418407, 0.70866977429126, 0.8611924171615208, 0.960170286650366, 0.9994494182244994, 0.9765876257280235, 0.8930063446890767, 0.7539022543433046, 0.5679241732886948, 0.3466353178350258, 0.10379435721925297 };
HARNESS( h_cos )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 63 ); const double r = (double)ffmath::cos( (float)( k - 32 )*0.25f ), e = r - COS_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( COS_T[ k ] < 0.0 ) ? -COS_T[ k ] : COS_T[ k ];
    vf_assert( m <= 0.001 + 0*w, "value" );
    vf_reach( "end" );
}
static const double TAN_T[ 64 ] = { -1.5574077246549023, -1.4552966624690729, -1.3620719763762281, -1.2764618289823835, -1.197421629234348, -1.1240851347045608, -1.05572763941192, -0.9917378983632686, -0.9315964599440725, -0.8748587605544823, -0.8211418015898941, -0.7701135513442087, -0.7214844409909045, -0.6750004851442429, -0.6304376738358848, -0.5875973675914432, -0.5463024898437905, -0.5063943574962299, -0.4677300254523918, -0.43018004746423005, -0.39362657592563277, -0.357961738848017, -0.32308624435174554, -0.2889081724405147, -0.25534192122103627, -0.22230728055343132, -0.18972861071805913, -0.15753410732527162, -0.12565513657513097, -0.09402562724573195, -0.06258150756627502, -0.031260176501255954, 0.0, 0.031260176501255954, 0.06258150756627502, 0.09402562724573195, 0.12565513657513097, 0.15753410732527162, 0.18972861071805913, 0.22230728055343132, 0.25534192122103627, 0.2889081724405147, 0.32308624435174554, 0.357961738848017, 0.39362657592563277, 0.43018004746423005, 0.4677300254523918, 0.5063943574962299, 0.5463024898437905, 0.5875973675914432, 0.6304376738358848, 0.6750004851442429, 0.7214844409909045, 0.7701135513442087, 0.8211418015898941, 0.8748587605544823, 0.9315964599440725, 0.9917378983632686, 1.05572763941192, 1.1240851347045608, 1.197421629234348, 1.2764618289823835, 1.3620719763762281, 1.4552966624690729 };
HARNESS( h_tan )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::tan( (float)( k - 32 )*0.03125f ), e = r - TAN_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( TAN_T[ k ] < 0.0 ) ? -TAN_T[ k ] : TAN_T[ k ];
    vf_assert( m <= 0.003 + 0*w, "value" );
    vf_reach( "end" );
}
static const double ASIN_T[ 64 ] = { -1.5707963267948966, -1.3201406644587659, -1.2153751251046732, -1.1343272980599775, -1.0654358165107394, -1.0042319961738184, -0.948427838239876, -0.8966658201275814, -0.848062078981481, -0.8020027778036185, -0.758040765426236, -0.7158380602251112, -0.6751315329370317, -0.6357112854013022, -0.5974064166453502, -0.560075306226582, -0.5235987755982989, -0.48787514754029293, -0.4528165947449256, -0.4183463864434681, -0.3843967744956391, -0.3509073435910811, -0.31782370392788073, -0.2850964402527462, -0.25268025514207865, -0.22053326092083333, -0.1886163861754041, -0.1568928710204612, -0.1253278311680654, -0.09388787510751648, -0.06254076179649139, -0.031255088499495154, 0.0, 0.031255088499495154, 0.06254076179649139, 0.09388787510751648, 0.1253278311680654, 0.1568928710204612, 0.1886163861754041, 0.22053326092083333, 0.25268025514207865, 0.2850964402527462, 0.31782370392788073, 0.3509073435910811, 0.3843967744956391, 0.4183463864434681, 0.4528165947449256, 0.48787514754029293, 0.5235987755982989, 0.560075306226582, 0.5974064166453502, 0.6357112854013022, 0.6751315329370317, 0.7158380602251112, 0.758040765426236, 0.8020027778036185, 0.848062078981481, 0.8966658201275814, 0.948427838239876, 1.0042319961738184, 1.0654358165107394, 1.1343272980599775, 1.2153751251046732, 1.3201406644587659 };
HARNESS( h_asin )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::asin( (float)( k - 32 )*0.03125f ), e = r - ASIN_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( ASIN_T[ k ] < 0.0 ) ? -ASIN_T[ k ] : ASIN_T[ k ];
    vf_assert( m <= 0.0125 + 0*w, "value" );
    vf_reach( "end" );
}
static const double ACOS_T[ 64 ] = { 3.141592653589793, 2.8909369912536627, 2.7861714518995697, 2.705123624854874, 2.636232143305636, 2.575028322968715, 2.5192241650347724, 2.467462146922478, 2.4188584057763776, 2.3727991045985153, 2.3288370922211326, 2.286634387020008, 2.2459278597319283, 2.206507612196199, 2.1682027434402467, 2.1308716330214788, 2.0943951023931957, 2.0586714743351897, 2.023612921539822, 1.9891427132383648, 1.9551931012905357, 1.9217036703859778, 1.8886200307227774, 1.8558927670476428, 1.8234765819369754, 1.79132958771573, 1.7594127129703008, 1.727689197815358, 1.696124157962962, 1.664684201902413, 1.633337088591388, 1.6020514152943919, 1.5707963267948966, 1.5395412382954015, 1.5082555649984053, 1.47690845168738, 1.4454684956268313, 1.4139034557744354, 1.3821799406194926, 1.3502630658740633, 1.318116071652818, 1.2856998865421505, 1.252972622867016, 1.2198889832038156, 1.1863995522992576, 1.1524499403514286, 1.1179797320499711, 1.0829211792546036, 1.0471975511965979, 1.0107210205683146, 0.9733899101495465, 0.9350850413935945, 0.895664793857865, 0.8549582665697854, 0.8127555613686607, 0.7687935489912782, 0.7227342478134157, 0.6741305066673152, 0.6223684885550207, 0.5665643306210781, 0.5053605102841573, 0.4364690287349193, 0.3554212016902235, 0.2506556623361308 };
HARNESS( h_acos )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::acos( (float)( k - 32 )*0.03125f ), e = r - ACOS_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( ACOS_T[ k ] < 0.0 ) ? -ACOS_T[ k ] : ACOS_T[ k ];
    vf_assert( m <= 0.0125 + 0*w, "value" );
    vf_reach( "end" );
}
static const double ATAN_T[ 64 ] = { -1.446441332248135, -1.442473099109102, -1.4382447944982226, -1.433730152484709, -1.4288992721907328, -1.423717971406494, -1.4181469983996315, -1.4121410646084953, -1.4056476493802699, -1.3986055122719576, -1.3909428270024184, -1.382574821490126, -1.373400766945016, -1.3633001003596938, -1.3521273809209546, -1.3397056595989996, -1.3258176636680326, -1.3101939350475555, -1.2924966677897853, -1.2722973952087173, -1.2490457723982544, -1.2220253232109897, -1.1902899496825317, -1.1525719972156676, -1.1071487177940904, -1.0516502125483738, -0.982793723247329, -0.8960553845713439, -0.7853981633974483, -0.6435011087932844, -0.4636476090008061, -0.24497866312686414, 0.0, 0.24497866312686414, 0.4636476090008061, 0.6435011087932844, 0.7853981633974483, 0.8960553845713439, 0.982793723247329, 1.0516502125483738, 1.1071487177940904, 1.1525719972156676, 1.1902899496825317, 1.2220253232109897, 1.2490457723982544, 1.2722973952087173, 1.2924966677897853, 1.3101939350475555, 1.3258176636680326, 1.3397056595989996, 1.3521273809209546, 1.3633001003596938, 1.373400766945016, 1.382574821490126, 1.3909428270024184, 1.3986055122719576, 1.4056476493802699, 1.4121410646084953, 1.4181469983996315, 1.423717971406494, 1.4288992721907328, 1.433730152484709, 1.4382447944982226, 1.442473099109102 };
HARNESS( h_atan )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 63 ); const double r = (double)ffmath::atan( (float)( k - 32 )*0.25f ), e = r - ATAN_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( ATAN_T[ k ] < 0.0 ) ? -ATAN_T[ k ] : ATAN_T[ k ];
    vf_assert( m <= 0.0065 + 0*w, "value" );
    vf_reach( "end" );
}
static const double EXP2_T[ 64 ] = { 0.00390625, 0.004645340292979379, 0.005524271728019903, 0.0065695032441696445, 0.0078125, 0.009290680585958758, 0.011048543456039806, 0.013139006488339289, 0.015625, 0.018581361171917516, 0.02209708691207961, 0.026278012976678578, 0.03125, 0.03716272234383503, 0.04419417382415922, 0.052556025953357156, 0.0625, 0.07432544468767006, 0.08838834764831845, 0.10511205190671431, 0.125, 0.14865088937534013, 0.1767766952966369, 0.21022410381342863, 0.25, 0.29730177875068026, 0.3535533905932738, 0.42044820762685725, 0.5, 0.5946035575013605, 0.7071067811865476, 0.8408964152537145, 1.0, 1.189207115002721, 1.4142135623730951, 1.681792830507429, 2.0, 2.378414230005442, 2.8284271247461903, 3.363585661014858, 4.0, 4.756828460010884, 5.656854249492381, 6.727171322029716, 8.0, 9.513656920021768, 11.313708498984761, 13.454342644059432, 16.0, 19.027313840043536, 22.627416997969522, 26.908685288118864, 32.0, 38.05462768008707, 45.254833995939045, 53.81737057623773, 64.0, 76.10925536017415, 90.50966799187809, 107.63474115247546, 128.0, 152.2185107203483, 181.01933598375618, 215.2694823049509 };
HARNESS( h_exp2 )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 63 ); const double r = (double)ffmath::exp2( (float)( k - 32 )*0.25f ), e = r - EXP2_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( EXP2_T[ k ] < 0.0 ) ? -EXP2_T[ k ] : EXP2_T[ k ];
    vf_assert( m <= 0 + 1e-06*w, "value" );
    vf_reach( "end" );
}
static const double EXP_T[ 64 ] = { 0.00033546262790251185, 0.00043074254057568753, 0.0005530843701478336, 0.000710174388842549, 0.0009118819655545162, 0.0011708796207911744, 0.0015034391929775724, 0.0019304541362277093, 0.0024787521766663585, 0.003182780796509667, 0.004086771438464067, 0.005247518399181385, 0.006737946999085467, 0.008651695203120634, 0.011108996538242306, 0.014264233908999256, 0.01831563888873418, 0.023517745856009107, 0.0301973834223185, 0.03877420783172201, 0.049787068367863944, 0.06392786120670757, 0.0820849986238988, 0.10539922456186433, 0.1353352832366127, 0.17377394345044514, 0.22313016014842982, 0.2865047968601901, 0.36787944117144233, 0.4723665527410147, 0.6065306597126334, 0.7788007830714049, 1.0, 1.2840254166877414, 1.6487212707001282, 2.117000016612675, 2.718281828459045, 3.4903429574618414, 4.4816890703380645, 5.754602676005731, 7.38905609893065, 9.487735836358526, 12.182493960703473, 15.642631884188171, 20.085536923187668, 25.790339917193062, 33.11545195869231, 42.52108200006278, 54.598150033144236, 70.10541234668786, 90.01713130052181, 115.58428452718766, 148.4131591025766, 190.56626845863, 244.69193226422038, 314.1906602856942, 403.4287934927351, 518.012824668342, 665.1416330443618, 854.0587625261516, 1096.6331584284585, 1408.1048482046956, 1808.0424144560632, 2321.572414611057 };
HARNESS( h_exp )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::exp( (float)( k - 32 )*0.25f ), e = r - EXP_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( EXP_T[ k ] < 0.0 ) ? -EXP_T[ k ] : EXP_T[ k ];
    vf_assert( m <= 0 + 2e-06*w, "value" );
    vf_reach( "end" );
}
static const double EXP10_T[ 64 ] = { 0.01, 0.011547819846894581, 0.01333521432163324, 0.01539926526059492, 0.01778279410038923, 0.02053525026457146, 0.023713737056616554, 0.027384196342643614, 0.03162277660168379, 0.03651741272548377, 0.042169650342858224, 0.04869675251658631, 0.05623413251903491, 0.06493816315762113, 0.07498942093324558, 0.08659643233600653, 0.1, 0.11547819846894582, 0.1333521432163324, 0.1539926526059492, 0.1778279410038923, 0.2053525026457146, 0.23713737056616552, 0.27384196342643613, 0.31622776601683794, 0.3651741272548377, 0.4216965034285822, 0.4869675251658631, 0.5623413251903491, 0.6493816315762113, 0.7498942093324559, 0.8659643233600653, 1.0, 1.1547819846894583, 1.333521432163324, 1.539926526059492, 1.7782794100389228, 2.0535250264571463, 2.371373705661655, 2.7384196342643614, 3.1622776601683795, 3.651741272548377, 4.216965034285822, 4.869675251658631, 5.623413251903491, 6.493816315762113, 7.498942093324558, 8.659643233600654, 10.0, 11.547819846894582, 13.33521432163324, 15.39926526059492, 17.78279410038923, 20.53525026457146, 23.71373705661655, 27.384196342643612, 31.622776601683793, 36.51741272548377, 42.169650342858226, 48.69675251658631, 56.23413251903491, 64.93816315762113, 74.98942093324558, 86.59643233600653 };
HARNESS( h_exp10 )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::exp10( (float)( k - 32 )*0.0625f ), e = r - EXP10_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( EXP10_T[ k ] < 0.0 ) ? -EXP10_T[ k ] : EXP10_T[ k ];
    vf_assert( m <= 0 + 2e-06*w, "value" );
    vf_reach( "end" );
}
static const double EXPM1_T[ 64 ] = { -0.8646647167633873, -0.8559363408985468, -0.8466450331550716, -0.8367544875460415, -0.8262260565495549, -0.8150186000926958, -0.8030883247958059, -0.7903886128489022, -0.7768698398515702, -0.7624791809045419, -0.7471604041952535, -0.7308536512708161, -0.7134952031398099, -0.6950172312889407, -0.6753475326416503, -0.6544092474230254, -0.6321205588285577, -0.608394373323201, -0.5831379803214916, -0.5562526899189202, -0.5276334472589853, -0.49716842202905903, -0.4647385714810098, -0.430217175269077, -0.3934693402873666, -0.35435147357210794, -0.31271072120902776, -0.2683843710533582, -0.22119921692859512, -0.17097088181959966, -0.1175030974154046, -0.06058693718652421, 0.0, 0.06449445891785943, 0.13314845306682632, 0.2062302494209807, 0.2840254166877415, 0.36683794117379637, 0.45499141461820136, 0.5488302986341331, 0.6487212707001282, 0.7550546569602985, 0.8682459574322224, 0.9887374695822918, 1.1170000166126748, 1.2535347872132085, 1.3988752939670979, 1.5535894580629268, 1.718281828459045, 1.893595944171761, 2.080216848918031, 2.2788737679386735, 2.4903429574618414, 2.715450737941104, 2.955076722920577, 3.2101572561439604, 3.481689070338065, 3.7707331819676027, 4.0784190371800815, 4.405948925141168, 4.75460267600573, 5.125742661881986, 5.5208191203301125, 5.941375821197036 };
HARNESS( h_expm1 )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::expm1( (float)( k - 32 )*0.0625f ), e = r - EXPM1_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( EXPM1_T[ k ] < 0.0 ) ? -EXPM1_T[ k ] : EXPM1_T[ k ];
    vf_assert( m <= 1e-06 + 2e-06*w, "value" );
    vf_reach( "end" );
}
static const double LOG2_T[ 64 ] = { -3.0, -2.0, -1.415037499278844, -1.0, -0.6780719051126377, -0.4150374992788438, -0.19264507794239588, 0.0, 0.16992500144231237, 0.32192809488736235, 0.45943161863729726, 0.5849625007211562, 0.7004397181410922, 0.8073549220576041, 0.9068905956085185, 1.0, 1.0874628412503393, 1.1699250014423124, 1.2479275134435854, 1.3219280948873624, 1.3923174227787602, 1.4594316186372973, 1.5235619560570128, 1.584962500721156, 1.6438561897747246, 1.7004397181410922, 1.7548875021634684, 1.8073549220576042, 1.857980995127572, 1.9068905956085185, 1.9541963103868751, 2.0, 2.0443941193584534, 2.0874628412503395, 2.1292830169449664, 2.169925001442312, 2.2094533656289497, 2.2479275134435857, 2.2854022188622483, 2.321928094887362, 2.357552004618084, 2.3923174227787602, 2.426264754702098, 2.4594316186372973, 2.4918530963296748, 2.523561956057013, 2.554588851677637, 2.584962500721156, 2.6147098441152083, 2.643856189774725, 2.6724253419714956, 2.700439718141092, 2.727920454563199, 2.7548875021634687, 2.7813597135246595, 2.807354922057604, 2.8328900141647417, 2.8579809951275723, 2.882643049361841, 2.9068905956085187, 2.9307373375628862, 2.9541963103868754, 2.9772799234999163, 3.0 };
HARNESS( h_log2 )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 63 ); const double r = (double)ffmath::log2( (float)( k + 1 )*0.125f ), e = r - LOG2_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( LOG2_T[ k ] < 0.0 ) ? -LOG2_T[ k ] : LOG2_T[ k ];
    vf_assert( m <= 1e-06 + 0*w, "value" );
    vf_reach( "end" );
}
static const double LOG_T[ 64 ] = { -2.0794415416798357, -1.3862943611198906, -0.9808292530117262, -0.6931471805599453, -0.4700036292457356, -0.2876820724517809, -0.13353139262452263, 0.0, 0.11778303565638346, 0.22314355131420976, 0.3184537311185346, 0.4054651081081644, 0.4855078157817008, 0.5596157879354227, 0.6286086594223741, 0.6931471805599453, 0.7537718023763802, 0.8109302162163288, 0.8649974374866045, 0.9162907318741551, 0.965080896043587, 1.0116009116784799, 1.0560526742493137, 1.0986122886681098, 1.1394342831883648, 1.1786549963416462, 1.2163953243244932, 1.252762968495368, 1.2878542883066382, 1.3217558399823195, 1.3545456628053103, 1.3862943611198906, 1.4170660197866443, 1.4469189829363254, 1.4759065198095778, 1.5040773967762742, 1.5314763709643886, 1.55814461804655, 1.5841201044498106, 1.6094379124341003, 1.634130525024472, 1.6582280766035324, 1.6817585740137264, 1.7047480922384253, 1.7272209480904839, 1.749199854809259, 1.7707060600302227, 1.791759469228055, 1.8123787564307907, 1.8325814637483102, 1.8523840910444898, 1.8718021769015913, 1.890850371872286, 1.9095425048844386, 1.927891643552635, 1.9459101490553132, 1.9636097261547143, 1.9810014688665833, 1.9980959022258835, 2.0149030205422647, 2.031432322493475, 2.0476928433652555, 2.063693184711697, 2.0794415416798357 };
HARNESS( h_log )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::log( (float)( k + 1 )*0.125f ), e = r - LOG_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( LOG_T[ k ] < 0.0 ) ? -LOG_T[ k ] : LOG_T[ k ];
    vf_assert( m <= 1e-06 + 0*w, "value" );
    vf_reach( "end" );
}
static const double LOG10_T[ 64 ] = { -0.9030899869919435, -0.6020599913279624, -0.42596873227228116, -0.3010299956639812, -0.2041199826559248, -0.12493873660829993, -0.057991946977686754, 0.0, 0.05115252244738129, 0.09691001300805642, 0.13830269816628143, 0.17609125905568124, 0.21085336531489318, 0.24303804868629442, 0.27300127206373764, 0.3010299956639812, 0.32735893438633035, 0.3521825181113625, 0.3756636139608854, 0.3979400086720376, 0.41912930774197565, 0.43933269383026263, 0.4586378490256493, 0.47712125471966244, 0.49485002168009407, 0.5118833609788744, 0.5282737771670437, 0.5440680443502757, 0.5593080109070125, 0.5740312677277188, 0.5882717068423291, 0.6020599913279624, 0.6154239528859439, 0.6283889300503115, 0.640978057358332, 0.6532125137753437, 0.6651117370750514, 0.6766936096248666, 0.6879746200345556, 0.6989700043360189, 0.7096938697277919, 0.7201593034059569, 0.730378468587643, 0.7403626894942439, 0.7501225267834001, 0.7596678446896306, 0.7690078709437739, 0.7781512503836436, 0.7871060930365701, 0.7958800173440752, 0.8044801891059927, 0.8129133566428556, 0.8211858826088455, 0.829303772831025, 0.8372727025023002, 0.8450980400142568, 0.8527848686805478, 0.8603380065709937, 0.8677620246502007, 0.8750612633917001, 0.8822398480188234, 0.8893017025063104, 0.8962505624616381, 0.9030899869919435 };
HARNESS( h_log10 )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::log10( (float)( k + 1 )*0.125f ), e = r - LOG10_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( LOG10_T[ k ] < 0.0 ) ? -LOG10_T[ k ] : LOG10_T[ k ];
    vf_assert( m <= 1e-06 + 0*w, "value" );
    vf_reach( "end" );
}
static const double LOG1P_T[ 64 ] = { -2.0794415416798357, -1.3862943611198906, -0.9808292530117262, -0.6931471805599453, -0.4700036292457356, -0.2876820724517809, -0.13353139262452263, 0.0, 0.11778303565638346, 0.22314355131420976, 0.3184537311185346, 0.4054651081081644, 0.48550781578170077, 0.5596157879354227, 0.6286086594223741, 0.6931471805599453, 0.7537718023763802, 0.8109302162163288, 0.8649974374866045, 0.9162907318741551, 0.965080896043587, 1.0116009116784799, 1.0560526742493137, 1.0986122886681096, 1.1394342831883648, 1.1786549963416462, 1.2163953243244932, 1.252762968495368, 1.2878542883066382, 1.3217558399823195, 1.3545456628053103, 1.3862943611198906, 1.4170660197866443, 1.4469189829363254, 1.4759065198095778, 1.5040773967762742, 1.5314763709643886, 1.55814461804655, 1.5841201044498106, 1.6094379124341003, 1.6341305250244718, 1.6582280766035324, 1.6817585740137266, 1.7047480922384253, 1.7272209480904839, 1.749199854809259, 1.7707060600302227, 1.791759469228055, 1.8123787564307907, 1.8325814637483102, 1.8523840910444898, 1.8718021769015913, 1.890850371872286, 1.9095425048844383, 1.927891643552635, 1.9459101490553132, 1.9636097261547143, 1.9810014688665833, 1.9980959022258835, 2.0149030205422647, 2.031432322493475, 2.0476928433652555, 2.063693184711697, 2.0794415416798357 };
HARNESS( h_log1p )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::log1p( (float)( k - 7 )*0.125f ), e = r - LOG1P_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( LOG1P_T[ k ] < 0.0 ) ? -LOG1P_T[ k ] : LOG1P_T[ k ];
    vf_assert( m <= 1e-06 + 0*w, "value" );
    vf_reach( "end" );
}
static const double SINH_T[ 64 ] = { -27.28991719712775, -24.08097197661256, -21.248782127103386, -18.74903703113232, -16.542627287634996, -14.595032831461635, -12.87578285468067, -11.357979079951662, -10.017874927409903, -8.834503990978932, -7.789352011490732, -6.866067214516422, -6.0502044810397875, -5.328999348432846, -4.691168305898331, -4.1267322599302725, -3.626860407847019, -3.183732076742592, -2.790414366277642, -2.4407536809879438, -2.1292794550948173, -1.8511185635579155, -1.6019190803008256, -1.3777821907798407, -1.1752011936438014, -0.9910066371442947, -0.82231673193583, -0.666492264456616, -0.5210953054937474, -0.38385106791361456, -0.2526123168081683, -0.12532577524111546, 0.0, 0.12532577524111546, 0.2526123168081683, 0.38385106791361456, 0.5210953054937474, 0.666492264456616, 0.82231673193583, 0.9910066371442947, 1.1752011936438014, 1.3777821907798407, 1.6019190803008256, 1.8511185635579155, 2.1292794550948173, 2.4407536809879438, 2.790414366277642, 3.183732076742592, 3.626860407847019, 4.1267322599302725, 4.691168305898331, 5.328999348432846, 6.0502044810397875, 6.866067214516422, 7.789352011490732, 8.834503990978932, 10.017874927409903, 11.357979079951662, 12.87578285468067, 14.595032831461635, 16.542627287634996, 18.74903703113232, 21.248782127103386, 24.08097197661256 };
HARNESS( h_sinh )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::sinh( (float)( k - 32 )*0.125f ), e = r - SINH_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( SINH_T[ k ] < 0.0 ) ? -SINH_T[ k ] : SINH_T[ k ];
    vf_assert( m <= 1e-06 + 2e-06*w, "value" );
    vf_reach( "end" );
}
static const double COSH_T[ 64 ] = { 27.308232836016487, 24.101726314486257, 21.272299872959398, 18.775686128468678, 16.572824671057315, 14.629250949773304, 12.914557062512392, 11.401916013575068, 10.067661995777765, 8.89092013048271, 7.853279872697439, 6.938506971550673, 6.132289479663686, 5.422013837643509, 4.796567530460195, 4.246165228196992, 3.7621956910836314, 3.3370870435875206, 2.964188309728088, 2.6376653561921377, 2.352409615243247, 2.1039581593626617, 1.8884238771610158, 1.7024346581381904, 1.5430806348152437, 1.4078686568228032, 1.2946832846768448, 1.2017536929756063, 1.1276259652063807, 1.0711403467045868, 1.0314130998795732, 1.0078226778257109, 1.0, 1.0078226778257109, 1.0314130998795732, 1.0711403467045868, 1.1276259652063807, 1.2017536929756063, 1.2946832846768448, 1.4078686568228032, 1.5430806348152437, 1.7024346581381904, 1.8884238771610158, 2.1039581593626617, 2.352409615243247, 2.6376653561921377, 2.964188309728088, 3.3370870435875206, 3.7621956910836314, 4.246165228196992, 4.796567530460195, 5.422013837643509, 6.132289479663686, 6.938506971550673, 7.853279872697439, 8.89092013048271, 10.067661995777765, 11.401916013575068, 12.914557062512392, 14.629250949773304, 16.572824671057315, 18.775686128468678, 21.272299872959398, 24.101726314486257 };
HARNESS( h_cosh )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::cosh( (float)( k - 32 )*0.125f ), e = r - COSH_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( COSH_T[ k ] < 0.0 ) ? -COSH_T[ k ] : COSH_T[ k ];
    vf_assert( m <= 1e-06 + 2e-06*w, "value" );
    vf_reach( "end" );
}
static const double TANH_T[ 64 ] = { -0.999329299739067, -0.9991388858373508, -0.9988944427261528, -0.9985806592017988, -0.9981778976111987, -0.997660979469889, -0.996997635486526, -0.996146530673345, -0.9950547536867305, -0.9936546343150297, -0.9918597245682077, -0.9895597486128832, -0.9866142981514303, -0.982845029172576, -0.9780261147388136, -0.971872745913509, -0.9640275800758169, -0.9540452601799487, -0.9413755384972874, -0.925346225311741, -0.9051482536448664, -0.8798266996519848, -0.8482836399575129, -0.809301070201781, -0.7615941559557649, -0.7039056039366212, -0.6351489523872873, -0.5545997223493823, -0.46211715726000974, -0.35835739835078595, -0.24491866240370913, -0.1243530017715962, 0.0, 0.1243530017715962, 0.24491866240370913, 0.35835739835078595, 0.46211715726000974, 0.5545997223493823, 0.6351489523872873, 0.7039056039366212, 0.7615941559557649, 0.809301070201781, 0.8482836399575129, 0.8798266996519848, 0.9051482536448664, 0.925346225311741, 0.9413755384972874, 0.9540452601799487, 0.9640275800758169, 0.971872745913509, 0.9780261147388136, 0.982845029172576, 0.9866142981514303, 0.9895597486128832, 0.9918597245682077, 0.9936546343150297, 0.9950547536867305, 0.996146530673345, 0.996997635486526, 0.997660979469889, 0.9981778976111987, 0.9985806592017988, 0.9988944427261528, 0.9991388858373508 };
HARNESS( h_tanh )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::tanh( (float)( k - 32 )*0.125f ), e = r - TANH_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( TANH_T[ k ] < 0.0 ) ? -TANH_T[ k ] : TANH_T[ k ];
    vf_assert( m <= 1e-06 + 0*w, "value" );
    vf_reach( "end" );
}
static const double ASINH_T[ 64 ] = { -1.4436354751788103, -1.3862943611198906, -1.3258977669011374, -1.262159310085841, -1.1947632172871094, -1.1233646762497842, -1.0475930126492587, -0.9670596312833237, -0.881373587019543, -0.790168725412397, -0.6931471805599453, -0.590143685781959, -0.48121182505960347, -0.36672460423013675, -0.24746646154726346, -0.12467674692144273, 0.0, 0.12467674692144273, 0.24746646154726346, 0.36672460423013675, 0.48121182505960347, 0.590143685781959, 0.6931471805599453, 0.790168725412397, 0.881373587019543, 0.9670596312833237, 1.0475930126492587, 1.1233646762497842, 1.1947632172871094, 1.262159310085841, 1.3258977669011374, 1.3862943611198906, 1.4436354751788103, 1.4981793213882804, 1.5501579568690622, 1.5997796241665743, 1.6472311463710958, 1.6926802279198863, 1.7362775864618003, 1.7781588850701413, 1.8184464592320668, 1.8572508467384057, 1.894672135423041, 1.930801146489371, 1.9657204716496515, 1.999505381544459, 2.0322246215338136, 2.0639411093276627, 2.0947125472611012, 2.124591960432087, 2.153628170462028, 2.1818662133343225, 2.209347708615334, 2.2361111863588845, 2.2621923771264507, 2.28762446980647, 2.3124383412727525, 2.336662761370235, 2.360324576243438, 2.3834488726179424, 2.4060591252980172, 2.428177329845851, 2.449824122152266, 2.471018886389166 };
HARNESS( h_asinh )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::asinh( (float)( k - 16 )*0.125f ), e = r - ASINH_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( ASINH_T[ k ] < 0.0 ) ? -ASINH_T[ k ] : ASINH_T[ k ];
    vf_assert( m <= 1e-05 + 0*w, "value" );
    vf_reach( "end" );
}
static const double ACOSH_T[ 64 ] = { 0.0, 0.4949329230945269, 0.6931471805599453, 0.8410193220114457, 0.9624236501192069, 1.0667324319014355, 1.158810360429947, 1.2415784233077212, 1.3169578969248166, 1.3862943611198906, 1.45057451382258, 1.5105477504732074, 1.566799236972411, 1.6197962748565, 1.66991903058777, 1.7174816447333652, 1.762747174039086, 1.8059384409192865, 1.8472460857138377, 1.8868346577205852, 1.9248473002384139, 1.9614094077467448, 1.9966315184985717, 2.0306116294850094, 2.0634370688955608, 2.0951860252985175, 2.1259288074588905, 2.1557288905833185, 2.1846437916051085, 2.212725806416555, 2.2400226347177723, 2.2665779126925085, 2.2924316695611777, 2.317620720859894, 2.3421790088083645, 2.366137898182869, 2.3895264345742184, 2.4123715706891615, 2.434698365375853, 2.4565301592661175, 2.477888730288475, 2.4987944317851016, 2.5192663155388737, 2.5393222416647823, 2.5589789770286124, 2.578252283613327, 2.5971569980510214, 2.615707103368295, 2.6339157938496336, 2.6517955338022747, 2.669358110903154, 2.6866146847209547, 2.703575830931402, 2.7202515816797534, 2.7366514624892058, 2.7527845260663506, 2.7686593833135738, 2.7842842318225856, 2.799666882092185, 2.814814781686265, 2.82973503752439, 2.844434436476529, 2.8589194644153157, 2.8731963238631892 };
HARNESS( h_acosh )
{
    const int k = 4*(int)( vf_nd_u8( "k", 0 ) & 15 ) + 1; const double r = (double)ffmath::acosh( 1.0f + (float)k*0.125f ), e = r - ACOSH_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( ACOSH_T[ k ] < 0.0 ) ? -ACOSH_T[ k ] : ACOSH_T[ k ];
    vf_assert( m <= 1e-05 + 0*w, "value" );
    vf_reach( "end" );
}
static const double ATANH_T[ 32 ] = { -2.0715673631957663, -1.7169936022425731, -1.5061307877526007, -1.354025100551105, -1.2340497657358096, -1.134341770659182, -1.0485705593896184, -0.9729550745276566, -0.9050543039481258, -0.8431994767851143, -0.7861983203768756, -0.7331685343967136, -0.6834381376313945, -0.6364828379064438, -0.5918850485042082, -0.5493061443340548, -0.5084671288269212, -0.46913481929646517, -0.4311117553019397, -0.3942286801821351, -0.35833883898506974, -0.32331358246252623, -0.2890389253875791, -0.25541281188299536, -0.22234291063072287, -0.18974481085245187, -0.15754052331994767, -0.12565721414045303, -0.09402611575146982, -0.06258157147700301, -0.03126017849066699, 0.0 };
HARNESS( h_atanh )
{
    const int k = 2*(int)( vf_nd_u8( "k", 0 ) & 15 ); const double r = (double)ffmath::atanh( (float)( k - 31 )*0.03125f ), e = r - ATANH_T[ k ], m = ( e < 0.0 ) ? -e : e, w = ( ATANH_T[ k ] < 0.0 ) ? -ATANH_T[ k ] : ATANH_T[ k ];
    vf_assert( m <= 1e-05 + 0*w, "value" );
    vf_reach( "end" );
}
static const double POW_T[ 64 ] = { 4.0, 2.8284271247461903, 2.0, 1.4142135623730951, 1.0, 0.7071067811865476, 0.5, 0.3535533905932738, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.4444444444444444, 0.5443310539518174, 0.6666666666666666, 0.816496580927726, 1.0, 1.224744871391589, 1.5, 1.8371173070873836, 0.25, 0.3535533905932738, 0.5, 0.7071067811865476, 1.0, 1.4142135623730951, 2.0, 2.8284271247461903, 0.16, 0.25298221281347033, 0.4, 0.6324555320336759, 1.0, 1.5811388300841898, 2.5, 3.952847075210474, 0.1111111111111111, 0.19245008972987526, 0.3333333333333333, 0.5773502691896257, 1.0, 1.7320508075688772, 3.0, 5.196152422706632, 0.08163265306122448, 0.1527207096642425, 0.2857142857142857, 0.5345224838248488, 1.0, 1.8708286933869707, 3.5, 6.547900426854397, 0.0625, 0.125, 0.25, 0.5, 1.0, 2.0, 4.0, 8.0 };
HARNESS( h_pow )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 63 ); const double r = (double)ffmath::pow( (float)( ( k >> 3 ) + 1 )*0.5f, (float)( ( k & 7 ) - 4 )*0.5f ), e = r - POW_T[ k ];
    vf_assert( ( ( e < 0.0 ) ? -e : e ) <= 4e-6*POW_T[ k ], "value" );
    vf_reach( "end" );
}
static const double AT2_T[ 64 ] = { -2.356194490192345, -2.214297435588181, -2.0344439357957027, -1.8157749899217608, -1.5707963267948966, -1.3258176636680326, -1.1071487177940904, -0.9272952180016122, -2.498091544796509, -2.356194490192345, -2.158798930342464, -1.892546881191539, -1.5707963267948966, -1.2490457723982544, -0.982793723247329, -0.7853981633974483, -2.677945044588987, -2.5535900500422257, -2.356194490192345, -2.0344439357957027, -1.5707963267948966, -1.1071487177940904, -0.7853981633974483, -0.5880026035475675, -2.896613990462929, -2.819842099193151, -2.677945044588987, -2.356194490192345, -1.5707963267948966, -0.7853981633974483, -0.4636476090008061, -0.3217505543966422, 3.141592653589793, 3.141592653589793, 3.141592653589793, 3.141592653589793, 0.0, 0.0, 0.0, 0.0, 2.896613990462929, 2.819842099193151, 2.677945044588987, 2.356194490192345, 1.5707963267948966, 0.7853981633974483, 0.4636476090008061, 0.3217505543966422, 2.677945044588987, 2.5535900500422257, 2.356194490192345, 2.0344439357957027, 1.5707963267948966, 1.1071487177940904, 0.7853981633974483, 0.5880026035475675, 2.498091544796509, 2.356194490192345, 2.158798930342464, 1.892546881191539, 1.5707963267948966, 1.2490457723982544, 0.982793723247329, 0.7853981633974483 };
HARNESS( h_atan2 )
{
    const int k = (int)( vf_nd_u8( "k", 0 ) & 63 ); vf_assume( k != 36 ); const double r = (double)ffmath::atan2( (float)( ( k >> 3 ) - 4 ), (float)( ( k & 7 ) - 4 ) ), e = r - AT2_T[ k ];
    vf_assert( ( ( e < 0.0 ) ? -e : e ) <= 0.0065, "quadrant and angle" );
    vf_reach( "end" );
}

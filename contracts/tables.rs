// Published values of the lookup tables (C22), written once; never derived from /repo at run time.
verus! {
pub open spec fn gold_gear32() -> Seq<u32> { seq![
    0xb088d3a9u32, 0x5652c7f7u32, 0x45b28969u32, 0x6b0a89d5u32, 0x368f573eu32, 0x1dc636dcu32, 0x207a4c4eu32, 0xa474b346u32,
    0x3b06a83eu32, 0x90e78d6cu32, 0xe1c92df7u32, 0x8e95053au32, 0x5a2ef4f1u32, 0xa50fac94u32, 0x0e7303ebu32, 0x99b07edcu32,
    0x689d2fb5u32, 0x00005082u32, 0xc4b08306u32, 0x3eb0678au32, 0xf19f87abu32, 0xf2129fbfu32, 0x48114957u32, 0x00000106u32,
    0x1fba3780u32, 0x3bf06fd6u32, 0x99687e97u32, 0x79a10673u32, 0xe4accf9eu32, 0x2520e71fu32, 0x2bd5d3fdu32, 0x00de4dcdu32,
    0xeaa9311cu32, 0xdb748eb6u32, 0xaf579a8du32, 0x86a6e5dau32, 0xcc2fc30au32, 0x355e2afeu32, 0x2d99c8f4u32, 0xbade4b4au32,
    0xf7b51872u32, 0x3286b658u32, 0x0000b688u32, 0xa115d6e4u32, 0x484f7e9cu32, 0xccca7bb7u32, 0xbf2584a6u32, 0xade7e813u32,
    0x00007094u32, 0x8ae69108u32, 0xbd776ad7u32, 0xfb6b001fu32, 0xc7a474b8u32, 0xbaf6f116u32, 0x09cb1f5bu32, 0xb0b219e6u32,
    0x00ccbc38u32, 0xcc849d0au32, 0x73a3ef7du32, 0xc807d2d3u32, 0x7f2ac996u32, 0xd037a86bu32, 0xf3f17c66u32, 0xaca626b0u32,
    0x755a9937u32, 0x90837ee6u32, 0x6ee8ad93u32, 0x0000d9e1u32, 0x9e063bb2u32, 0x07ab77f1u32, 0xec550255u32, 0x78fb94a8u32,
    0xc7510e1bu32, 0x0000320bu32, 0x827c3326u32, 0x14675f0bu32, 0x267bd3a6u32, 0xf1916ff9u32, 0x86221b7fu32, 0x9dbecee7u32,
    0xea58f8cau32, 0x008d1986u32, 0x6d38704fu32, 0xe032cb07u32, 0x228d21f6u32, 0x635cb1bfu32, 0x4620a173u32, 0xa7e7dfe3u32,
    0x0c10ca93u32, 0x2727fee8u32, 0xa2df1c6du32, 0x4dcdd1acu32, 0x000070ffu32, 0xa2ace87bu32, 0x9892275au32, 0xc2861181u32,
    0xbb9972a0u32, 0xef70cd37u32, 0x00000513u32, 0xc058b618u32, 0x09e85085u32, 0x9197fb3bu32, 0x7e1e626du32, 0x520c5450u32,
    0xbee17971u32, 0x6fd9ac32u32, 0x0023957cu32, 0xa01c7d7eu32, 0xaba2c758u32, 0x0d1fa0ceu32, 0x0bb6a58bu32, 0x4333dd5bu32,
    0xc2fd3b7du32, 0xfb418024u32, 0x65a56185u32, 0xf67a02bdu32, 0x696f11ddu32, 0x00002022u32, 0x8cd6be91u32, 0x695189b6u32,
    0xee9453b5u32, 0xd8fc5ea9u32, 0xab86bf19u32, 0x0000c6b5u32, 0x26731017u32, 0xed2d101bu32, 0x3b41ed84u32, 0x13e62212u32,
    0xa315f5ebu32, 0x8816c34eu32, 0xe9395b9cu32, 0x002ce920u32, 0x4283db1du32, 0xd77d461au32, 0xe2ec17e4u32, 0xb8e0be40u32,
    0xdea160c4u32, 0x7eec86c8u32, 0x2119ad12u32, 0xa6ccf46bu32, 0x2c52cedeu32, 0x2db48711u32, 0x0000f0d6u32, 0x3dd5d8c9u32,
    0x8a1872a2u32, 0xf282a4c4u32, 0x8020ec2cu32, 0x6693b6e0u32, 0x0000ce19u32, 0x20cb5735u32, 0x762ebf37u32, 0x207bfe82u32,
    0xd77dc112u32, 0x9ba78342u32, 0x217dc513u32, 0xb27b1a29u32, 0x00d5cd98u32, 0x71e39b80u32, 0x7e572af0u32, 0xa2734f2fu32,
    0xbf82c6b5u32, 0x5c3beac6u32, 0xcdc893bbu32, 0x6d108561u32, 0x77f8ae30u32, 0x917c6b81u32, 0x5b75b699u32, 0x0000cf6au32,
    0xf3c40afau32, 0x2063127au32, 0x621de622u32, 0xd188ac1du32, 0x107036e2u32, 0x0000b85fu32, 0xf2ef4e4cu32, 0xd9d6de66u32,
    0xa1fc7955u32, 0xeb85fd03u32, 0xbe27502fu32, 0xe3034251u32, 0x441364d3u32, 0x0082b36cu32, 0xb1459103u32, 0x021c069cu32,
    0x2910dfc7u32, 0x735b353eu32, 0xce44312cu32, 0xbc942e45u32, 0xf05086a7u32, 0xfec3b215u32, 0x00ae1055u32, 0xf54b4084u32,
    0x00007fd9u32, 0xbfbd9ef3u32, 0xa804302fu32, 0x39ce4957u32, 0xffb9e2a4u32, 0x55b9ad1du32, 0x00008acbu32, 0x48e2bfc8u32,
    0x8be39841u32, 0x0e271216u32, 0xd51096e8u32, 0x1101ba17u32, 0xc22e770fu32, 0x1689eff2u32, 0x00a92a19u32, 0xbc765990u32,
    0xc61441e3u32, 0x07e13a2cu32, 0x92cbe984u32, 0x8f4ff572u32, 0x0b9670c0u32, 0x62955a58u32, 0x645f83e5u32, 0x41fce516u32,
    0xbbda9748u32, 0x0000aab2u32, 0x19761b06u32, 0x8b8f5e83u32, 0x3e5d1cfdu32, 0xec5c1e2cu32, 0xfaf7e0feu32, 0x000000d3u32,
    0xda3f9017u32, 0x70ff906du32, 0x0527d5a7u32, 0x22d8e773u32, 0xc9ab70dfu32, 0xeda4c6dcu32, 0xecef1f41u32, 0x0024c2b2u32,
    0x06740d95u32, 0x1d7a299bu32, 0xb3c37cb2u32, 0xc986e3c7u32, 0x9fabea36u32, 0x6da214c5u32, 0x17a43ed8u32, 0x6eccec51u32,
    0xf9cab309u32, 0x4a5e60c5u32, 0x00006967u32, 0x9da51d12u32, 0x84321e13u32, 0xfb3d6fb6u32, 0x60305eedu32, 0xcbbf4b14u32,
    0x00004f63u32, 0x07d5b781u32, 0xe5a53672u32, 0x57afb234u32, 0x18f346f7u32, 0x636dc655u32, 0xcc8bab49u32, 0x63c7a906u32,
] }
pub open spec fn gold_gear64() -> Seq<u64> { seq![
    0xb088d3a9e840f559u64, 0x5652c7f739ed20d6u64, 0x45b28969898972abu64, 0x6b0a89d5b68ec777u64, 0x368f573e8b7a31b7u64, 0x1dc636dce936d94bu64, 0x207a4c4e5554d5b6u64, 0xa474b34628239acbu64,
    0x3b06a83e1ca3b912u64, 0x90e78d6c2f02baf7u64, 0xe1c92df7150d9a8au64, 0x8e95053a1086d3adu64, 0x5a2ef4f1b83a0722u64, 0xa50fac949f807faeu64, 0x0e7303eb80d8d681u64, 0x99b07edc1570ad0fu64,
    0x689d2fb555fd3076u64, 0x00005082119ea468u64, 0xc4b08306a88fcc28u64, 0x3eb0678af6374afdu64, 0xf19f87ab86ad7436u64, 0xf2129fbfbe6bc736u64, 0x481149575c98a4edu64, 0x0000010695477bc5u64,
    0x1fba37801a9ceaccu64, 0x3bf06fd663a49b6du64, 0x99687e9782e3874bu64, 0x79a10673aa50d8e3u64, 0xe4accf9e6211f420u64, 0x2520e71f87579071u64, 0x2bd5d3fd781a8a9bu64, 0x00de4dcddd11c873u64,
    0xeaa9311c5a87392fu64, 0xdb748eb617bc40ffu64, 0xaf579a8df620bf6fu64, 0x86a6e5da1b09c2b1u64, 0xcc2fc30ac322a12eu64, 0x355e2afec1f74267u64, 0x2d99c8f4c021a47bu64, 0xbade4b4a9404cfc3u64,
    0xf7b518721d707d69u64, 0x3286b6587bf32c20u64, 0x0000b68886af270cu64, 0xa115d6e4db8a9079u64, 0x484f7e9c97b2e199u64, 0xccca7bb75713e301u64, 0xbf2584a62bb0f160u64, 0xade7e813625dbcc8u64,
    0x000070940d87955au64, 0x8ae69108139e626fu64, 0xbd776ad72fde38a2u64, 0xfb6b001fc2fcc0cfu64, 0xc7a474b8e67bc427u64, 0xbaf6f11610eb5d58u64, 0x09cb1f5b6de770d1u64, 0xb0b219e6977d4c47u64,
    0x00ccbc386ea7ad4au64, 0xcc849d0adf973f01u64, 0x73a3ef7d016af770u64, 0xc807d2d386bdbdfeu64, 0x7f2ac9966c791730u64, 0xd037a86bc6c504dau64, 0xf3f17c661eaa609du64, 0xaca626b04daae687u64,
    0x755a99374f4a5b07u64, 0x90837ee65b2caedeu64, 0x6ee8ad93fd560785u64, 0x0000d9e11053edd8u64, 0x9e063bb2d21cdbd7u64, 0x07ab77f12a01d2b2u64, 0xec550255e6641b44u64, 0x78fb94a8449c14c6u64,
    0xc7510e1bc6c0f5f5u64, 0x0000320b36e4cae3u64, 0x827c33262c8b1a2du64, 0x14675f0b48ea4144u64, 0x267bd3a6498decebu64, 0xf1916ff982f5035eu64, 0x86221b7ff434fb88u64, 0x9dbecee7386f49d8u64,
    0xea58f8cac80f8f4au64, 0x008d198692fc64d8u64, 0x6d38704fbabf9a36u64, 0xe032cb07d1e7be4cu64, 0x228d21f6ad450890u64, 0x635cb1bfc02589a5u64, 0x4620a1739ca2ce71u64, 0xa7e7dfe3aae5fb58u64,
    0x0c10ca932b3c0debu64, 0x2727fee884afed7bu64, 0xa2df1c6df9e2ab1fu64, 0x4dcdd1ac0774f523u64, 0x000070ffad33e24eu64, 0xa2ace87bc5977816u64, 0x9892275ab4286049u64, 0xc2861181ddf18959u64,
    0xbb9972a042483e19u64, 0xef70cd3766513078u64, 0x00000513abfc9864u64, 0xc058b61858c94083u64, 0x09e850859725e0deu64, 0x9197fb3bf83e7d94u64, 0x7e1e626d12b64bceu64, 0x520c54507f7b57d1u64,
    0xbee1797174e22416u64, 0x6fd9ac3222e95587u64, 0x0023957c9adfbf3eu64, 0xa01c7d7e234bbe15u64, 0xaba2c758b8a38cbbu64, 0x0d1fa0ceec3e2b30u64, 0x0bb6a58b7e60b991u64, 0x4333dd5b9fa26635u64,
    0xc2fd3b7d4001c1a3u64, 0xfb41802454731127u64, 0x65a56185a50d18cbu64, 0xf67a02bd8784b54fu64, 0x696f11dd67e65063u64, 0x00002022fca814abu64, 0x8cd6be912db9d852u64, 0x695189b6e9ae8a57u64,
    0xee9453b50ada0c28u64, 0xd8fc5ea91a78845eu64, 0xab86bf191a4aa767u64, 0x0000c6b5c86415e5u64, 0x267310178e08a22eu64, 0xed2d101b078bca25u64, 0x3b41ed84b226a8fbu64, 0x13e622120f28dc06u64,
    0xa315f5ebfb706d26u64, 0x8816c34e3301baceu64, 0xe9395b9cbb71fdaeu64, 0x002ce9202e721648u64, 0x4283db1d2bb3c91cu64, 0xd77d461ad2b1a6a5u64, 0xe2ec17e46eeb866bu64, 0xb8e0be4039fbc47cu64,
    0xdea160c4d5299d04u64, 0x7eec86c8d28c3634u64, 0x2119ad129f98a399u64, 0xa6ccf46b61a283efu64, 0x2c52cedef658c617u64, 0x2db4871169acdd83u64, 0x0000f0d6f39ecbe9u64, 0x3dd5d8c98d2f9489u64,
    0x8a1872a22b01f584u64, 0xf282a4c40e7b3cf2u64, 0x8020ec2ccb1ba196u64, 0x6693b6e09e59e313u64, 0x0000ce19cc7c83ebu64, 0x20cb5735f6479c3bu64, 0x762ebf3759d75a5bu64, 0x207bfe823d693975u64,
    0xd77dc112339cd9d5u64, 0x9ba7834284627d03u64, 0x217dc513e95f51e9u64, 0xb27b1a29fc5e7816u64, 0x00d5cd9831bb662du64, 0x71e39b806d75734cu64, 0x7e572af006fb1a23u64, 0xa2734f2f6ae91f85u64,
    0xbf82c6b5022cddf2u64, 0x5c3beac60761a0deu64, 0xcdc893bb47416998u64, 0x6d1085615c187e01u64, 0x77f8ae30ac277c5du64, 0x917c6b81122a2c91u64, 0x5b75b699add16967u64, 0x0000cf6ae79a069bu64,
    0xf3c40afa60de1104u64, 0x2063127aa59167c3u64, 0x621de62269d1894du64, 0xd188ac1de62b4726u64, 0x107036e2154b673cu64, 0x0000b85f28553a1du64, 0xf2ef4e4c18236f3du64, 0xd9d6de6611b9f602u64,
    0xa1fc7955fb47911cu64, 0xeb85fd032f298dbdu64, 0xbe27502fb3befae1u64, 0xe3034251c4cd661eu64, 0x441364d354071836u64, 0x0082b36c75f2983eu64, 0xb145910316fa66f0u64, 0x021c069c9847caf7u64,
    0x2910dfc75a4b5221u64, 0x735b353e1c57a8b5u64, 0xce44312ce98ed96cu64, 0xbc942e4506bdfa65u64, 0xf05086a71257941bu64, 0xfec3b215d351ceadu64, 0x00ae1055e0144202u64, 0xf54b40846f42e454u64,
    0x00007fd9c8bcbcc8u64, 0xbfbd9ef317de9bfeu64, 0xa804302ff2854e12u64, 0x39ce4957a5e5d8d4u64, 0xffb9e2a45637ba84u64, 0x55b9ad1d9ea0818bu64, 0x00008acbf319178au64, 0x48e2bfc8d0fbfb38u64,
    0x8be39841e848b5e8u64, 0x0e2712160696a08bu64, 0xd51096e84b44242au64, 0x1101ba176792e13au64, 0xc22e770f4531689du64, 0x1689eff272bbc56cu64, 0x00a92a197f5650ecu64, 0xbc765990bda1784eu64,
    0xc61441e392fcb8aeu64, 0x07e13a2ced31e4a0u64, 0x92cbe984234e9d4du64, 0x8f4ff572bb7d8ac5u64, 0x0b9670c00b963bd0u64, 0x62955a581a03eb01u64, 0x645f83e5ea000254u64, 0x41fce516cd88f299u64,
    0xbbda9748da7a98cfu64, 0x0000aab2fe4845fau64, 0x19761b069bf56555u64, 0x8b8f5e8343b6ad56u64, 0x3e5d1cfd144821d9u64, 0xec5c1e2ca2b0cd8fu64, 0xfaf7e0fea7fbb57fu64, 0x000000d3ba12961bu64,
    0xda3f90178401b18eu64, 0x70ff906de33a5febu64, 0x0527d5a7c06970e7u64, 0x22d8e773607c13e9u64, 0xc9ab70df643c3bacu64, 0xeda4c6dc8abe12e3u64, 0xecef1f410033e78au64, 0x0024c2b274ac72cbu64,
    0x06740d954fa900b4u64, 0x1d7a299b323d6304u64, 0xb3c37cb298cbead5u64, 0xc986e3c76178739bu64, 0x9fabea364b46f58au64, 0x6da214c5af85cc56u64, 0x17a43ed8b7a38f84u64, 0x6eccec511d9adbebu64,
    0xf9cab30913335afbu64, 0x4a5e60c5f415eed2u64, 0x00006967503672b4u64, 0x9da51d121454bb87u64, 0x84321e13b9bbc816u64, 0xfb3d6fb6ab2fdd8du64, 0x60305eed8e160a8du64, 0xcbbf4b14e9946ce8u64,
    0x00004f63381b10c3u64, 0x07d5b7816fcc4e10u64, 0xe5a536726a6a8155u64, 0x57afb23447a07fddu64, 0x18f346f7abc9d394u64, 0x636dc655d61ad33du64, 0xcc8bab4939f7f3f6u64, 0x63c7a906c1dd187bu64,
] }
pub open spec fn gold_go_buzhash() -> Seq<u32> { seq![
    0x12bd9527u32, 0xf4140ceau32, 0x987bd6e1u32, 0x79079850u32, 0xafbfd539u32, 0xd350ce0au32, 0x82973931u32, 0x9fc32b9cu32,
    0x28003b88u32, 0xc30c13aau32, 0x6b678c34u32, 0x5844ef1du32, 0xaa552c18u32, 0x4a77d3e8u32, 0xd1f62ea0u32, 0x6599417cu32,
    0xfbe30e7au32, 0xf9e2d5eeu32, 0xa1fca42eu32, 0x41548969u32, 0x116d5b59u32, 0xaeda1e1au32, 0xc5191c17u32, 0x54b9a3cbu32,
    0x727e492au32, 0x5c432f91u32, 0x31a50bceu32, 0xc2696af6u32, 0x217c8020u32, 0x1262aefcu32, 0xace75924u32, 0x9876a04fu32,
    0xaf300bc2u32, 0x3ffce3f6u32, 0xd6680fb5u32, 0xd0b1ced8u32, 0x6651f842u32, 0x736fadefu32, 0xbc2d3429u32, 0xb03d2904u32,
    0x7e634ba4u32, 0xdfd87d8cu32, 0x7988d63au32, 0x4be4d933u32, 0x6a8d0382u32, 0x9e132d62u32, 0x3ee9c95fu32, 0xfec05b97u32,
    0x6907ad34u32, 0x8616cfccu32, 0xa6aabf24u32, 0x8ad1c92eu32, 0x4f2affc0u32, 0xb87519dbu32, 0x6576eaf6u32, 0x15dbe00au32,
    0x63e1dd82u32, 0xa36b6a81u32, 0xeead99b3u32, 0xbc6a4309u32, 0x3478d1a7u32, 0x2182bcc0u32, 0xdd50cfceu32, 0x7cb25580u32,
    0x73075483u32, 0x503b7f42u32, 0x4cd50d63u32, 0x3f4d94c9u32, 0x385fcbb7u32, 0x90daf16cu32, 0xece10b8eu32, 0x11c1cb04u32,
    0x816a899bu32, 0x69a29d06u32, 0xfb090b37u32, 0xf98ef13cu32, 0x07653435u32, 0x9f15dc42u32, 0x3b43abdfu32, 0x1334283fu32,
    0x93f3d9afu32, 0x0cbdfe71u32, 0xa788a614u32, 0x4f54d2f0u32, 0xd4374fc7u32, 0x70557ce7u32, 0xf741fce8u32, 0xe4b6f661u32,
    0xc630cb98u32, 0x387a6366u32, 0x72f428fdu32, 0x539009dbu32, 0xc53e3810u32, 0x1e1a52e5u32, 0x7d6816b0u32, 0x040f9b81u32,
    0x9c99c9fbu32, 0x9f3af3d2u32, 0x774d1061u32, 0xd5c840eau32, 0x8e1480feu32, 0x6ee4023cu32, 0x2fbda535u32, 0xd88eff7au32,
    0xd8632a2au32, 0x43c4e024u32, 0x3ef27971u32, 0xc72866fdu32, 0xe35cc630u32, 0x46d96220u32, 0x437a8384u32, 0xe92caf0cu32,
    0x6290a47eu32, 0xa7bb9238u32, 0x0e1000f9u32, 0x49e76bdcu32, 0x3acfb4b8u32, 0x03582b8eu32, 0x6ea2de4eu32, 0x2ec1008du32,
    0xfcc8df69u32, 0x91c2fe0au32, 0xb471c7d9u32, 0x778be812u32, 0x70d29ad1u32, 0x76411cbfu32, 0xc302e81cu32, 0x4e445194u32,
    0x22e3aa72u32, 0xb65762e9u32, 0xa280db05u32, 0x827aa70eu32, 0x4c531a9du32, 0x7a60bf4au32, 0x8fd95a44u32, 0x2289aef0u32,
    0xcd50ddc4u32, 0x639aae69u32, 0x5fe85ed6u32, 0x4ed724ffu32, 0x00f04f7du32, 0x95a5fcb0u32, 0x88255d15u32, 0xa603d2c9u32,
    0xf6956a5bu32, 0x53ea7f3eu32, 0xb570f225u32, 0x2b3be203u32, 0xa181e40eu32, 0xc413cdceu32, 0xa7cb1ebbu32, 0xcf258b1fu32,
    0x516eb016u32, 0xca204586u32, 0xd1e69894u32, 0xe85a73d3u32, 0x7db2d382u32, 0xae73b463u32, 0x3598d643u32, 0x5087c864u32,
    0xd91f30b6u32, 0xe1d4d1e7u32, 0x73b3b337u32, 0xceac1233u32, 0x8edf7845u32, 0xa69c45c9u32, 0xdb5db3abu32, 0x28cfade8u32,
    0xebfa49e7u32, 0xcbc2a659u32, 0x59cce971u32, 0x959a01afu32, 0x8ee9aae7u32, 0xfb2f01c6u32, 0x5a752836u32, 0x9ed12981u32,
    0x618d05b6u32, 0x93ec12b3u32, 0x4590c779u32, 0xed1317a2u32, 0x03fe5835u32, 0x7ad3c6f7u32, 0xd4aad5b5u32, 0x1a995ed7u32,
    0x247bfaa4u32, 0x69c2c799u32, 0x745fa405u32, 0xc5b9f239u32, 0xc3d9aebcu32, 0xa6f60e0bu32, 0xdf1e91d7u32, 0xab8e041cu32,
    0xee3188c6u32, 0x37377a9eu32, 0xc0e1a3bfu32, 0x19a5a9e4u32, 0x56cb9556u32, 0xc4d33d3fu32, 0xfb1eb03eu32, 0xf9557057u32,
    0x1be31d37u32, 0xd1fa65f1u32, 0xf518d714u32, 0x570ac722u32, 0xf26cf66au32, 0x24794d47u32, 0x8ba2e402u32, 0x3f5137e6u32,
    0x35be1453u32, 0x43350478u32, 0x9f05ee88u32, 0x364cf9cfu32, 0x39a23ee7u32, 0xa4db8d49u32, 0xc2ebb3d2u32, 0xc6fb99d5u32,
    0xe014dfb0u32, 0x7156d425u32, 0xe090a87au32, 0x4cc12f78u32, 0x1b30f503u32, 0x06694a7au32, 0x68198cd1u32, 0x2f8345bdu32,
    0x9d79198eu32, 0xd871943fu32, 0x22ef6cf4u32, 0xe81b1c15u32, 0x067b61d8u32, 0xfc4ea4f5u32, 0xfe6dab57u32, 0x1bf744bau32,
    0xa70b6a25u32, 0xafe6e412u32, 0xc6c1a05cu32, 0x8ffbe3ceu32, 0xc4270af1u32, 0xf3f36373u32, 0xc4507dd8u32, 0x5e6fd1e2u32,
    0x58cd9739u32, 0x47d3c5b5u32, 0xe1d5a343u32, 0x3d4dea4au32, 0x893d91aeu32, 0xbb2a5e2au32, 0x0d57b800u32, 0x652a7cc9u32,
    0x6a68ccfdu32, 0x62529f0bu32, 0xec5f36d6u32, 0x766ccedau32, 0x96ca63efu32, 0xa0499838u32, 0xd9030f59u32, 0x8185f4d2u32,
] }
pub open spec fn gold_borg_base() -> Seq<u32> { seq![
    0xe7f831ecu32, 0xf4026465u32, 0xafb50caeu32, 0x6d553c7au32, 0xd639efe3u32, 0x19a7b895u32, 0x9aba5b21u32, 0x5417d6d4u32,
    0x35fd2b84u32, 0xd1f6a159u32, 0x3f8e323fu32, 0xb419551cu32, 0xf444cebfu32, 0x21dc3b80u32, 0xde8d1e36u32, 0x84a32436u32,
    0xbeb35a9du32, 0xa36f24aau32, 0xa4e60186u32, 0x98d18ffeu32, 0x3f042f9eu32, 0xdb228bcdu32, 0x096474b7u32, 0x5c20c2f7u32,
    0xf9eec872u32, 0xe8625275u32, 0xb9d38f80u32, 0xd48eb716u32, 0x22a950b4u32, 0x3cbaaeaau32, 0xc37cddd3u32, 0x8fea6f6au32,
    0x1d55d526u32, 0x7fd6d3b3u32, 0xdaa072eeu32, 0x4345ac40u32, 0xa077c642u32, 0x8f2bd45bu32, 0x28509110u32, 0x55557613u32,
    0xffc17311u32, 0xd961ffefu32, 0xe532c287u32, 0xaab95937u32, 0x46d38365u32, 0xb065c703u32, 0xf2d91d0fu32, 0x92cd4bb0u32,
    0x4007c712u32, 0xf35509ddu32, 0x505b2f69u32, 0x557ead81u32, 0x310f4563u32, 0xbddc5be8u32, 0x9760f38cu32, 0x701e0205u32,
    0x00157244u32, 0x14912826u32, 0xdc4ca32bu32, 0x67b196deu32, 0x5db292e8u32, 0x8c1b406bu32, 0x01f34075u32, 0xfa2520f7u32,
    0x73bc37abu32, 0x1e18bc30u32, 0xfe2c6cb3u32, 0x20c522d0u32, 0x5639e3dbu32, 0x942bda35u32, 0x899af9d1u32, 0xced44035u32,
    0x98cc025bu32, 0x255f5771u32, 0x70fefa24u32, 0xe928fa4du32, 0x2c030405u32, 0xb9325590u32, 0x20cb63bdu32, 0xa166305du32,
    0x80e52c0au32, 0xa8fafe2fu32, 0x1ad13f7du32, 0xcfaf3685u32, 0x6c83a199u32, 0x7d26718au32, 0xde5dfcd9u32, 0x79cf7355u32,
    0x8979d7fbu32, 0xebf8c55eu32, 0xebe408e4u32, 0xcd2affbau32, 0xe483be6eu32, 0xe239d6deu32, 0x5dc1e9e0u32, 0x0473931fu32,
    0x851b097cu32, 0xac5db249u32, 0x09c0f9f2u32, 0xd8d2f134u32, 0xe6f38e41u32, 0xb1c71bf1u32, 0x52b6e4dbu32, 0x07224424u32,
    0x6cf73e85u32, 0x4f25d89cu32, 0x782a7d74u32, 0x10a68dcdu32, 0x3a868189u32, 0xd570d2dcu32, 0x69630745u32, 0x9542ed86u32,
    0x331cd6b2u32, 0xa84b5b28u32, 0x07879c9du32, 0x38372f64u32, 0x7185db11u32, 0x25ba7c83u32, 0x01061523u32, 0xe6792f9fu32,
    0xe5df07d1u32, 0x4321b47fu32, 0x7d2469d8u32, 0x1a3a4f90u32, 0x48be29a3u32, 0x669071afu32, 0x8ec8dd31u32, 0x0810bfbfu32,
    0x813a06b4u32, 0x68538345u32, 0x65865ddcu32, 0x43a71b8eu32, 0x78619a56u32, 0x5a34451du32, 0x5bdaa3edu32, 0x71edc7e9u32,
    0x17ac9a20u32, 0x78d10bfau32, 0x6c1e7f35u32, 0xd51839d9u32, 0x240cbc51u32, 0x33513cc1u32, 0xd2b4f795u32, 0xccaa8186u32,
    0x0babe682u32, 0xa33cf164u32, 0x18c643eau32, 0xc1ca105fu32, 0x9959147au32, 0x6d3d94deu32, 0x0b654fbeu32, 0xed902ca0u32,
    0x7d835cb5u32, 0x99ba1509u32, 0x6445c922u32, 0x495e76c2u32, 0xf07194bcu32, 0xa1631d7eu32, 0x677076a5u32, 0x89fffe35u32,
    0x1a49bcf3u32, 0x8e6c948au32, 0x0144c917u32, 0x8d93aea1u32, 0x16f87ddfu32, 0xc8f25d49u32, 0x1fb11297u32, 0x27e750cdu32,
    0x2f422da1u32, 0xdee89a77u32, 0x1534c643u32, 0x457b7b8bu32, 0xaf172f7au32, 0x6b9b09d6u32, 0x33573f7fu32, 0xf14e15c4u32,
    0x526467d5u32, 0xaf488241u32, 0x87c3ee0du32, 0x33be490cu32, 0x95aa6e52u32, 0x43ec242eu32, 0xd77de99bu32, 0xd018334fu32,
    0x5b78d407u32, 0x498eb66bu32, 0xb1279fa8u32, 0xb38b0ea6u32, 0x90718376u32, 0xe325dee2u32, 0x8e2f2cbau32, 0xcaa5bdecu32,
    0x9d652c56u32, 0xad68f5cbu32, 0xa77591afu32, 0x88e37ee8u32, 0xf8faa221u32, 0xfcbbbe47u32, 0x4f407786u32, 0xaf393889u32,
    0xf444a1d9u32, 0x15ae1a2fu32, 0x40aa7097u32, 0x6f9486acu32, 0x29d232a3u32, 0xe47609e9u32, 0xe8b631ffu32, 0xba8565f4u32,
    0x11288749u32, 0x46c9a838u32, 0xeb1b7cd8u32, 0xf516bbb1u32, 0xfb74fda0u32, 0x010996e6u32, 0x4c994653u32, 0x1d889512u32,
    0x53dcd9a3u32, 0xdd074697u32, 0x1e78e17cu32, 0x637c98bfu32, 0x930bb219u32, 0xcf7f75b0u32, 0xcb9355fbu32, 0x9e623009u32,
    0xe466d82cu32, 0x28f968d3u32, 0xfeb385d9u32, 0x238e026cu32, 0xb8ed0560u32, 0x0c6a027au32, 0x3d6fec4bu32, 0xbb4b2ec2u32,
    0xe715031cu32, 0xeded011du32, 0xcdc4d3b9u32, 0xc456fc96u32, 0xdd0eea20u32, 0xb3df8ec9u32, 0x12351993u32, 0xd9cbb01cu32,
    0x603147a2u32, 0xcf37d17du32, 0xf7fcd9dcu32, 0xd8556fa3u32, 0x104c8131u32, 0x13152774u32, 0xb4715811u32, 0x6a72c2c9u32,
    0xc5ae37bbu32, 0xa76ce12au32, 0x8150d8f3u32, 0x2ec29218u32, 0xa35f0984u32, 0x48c0647eu32, 0x0b5ff98cu32, 0x71893f7bu32,
] }
} // verus!

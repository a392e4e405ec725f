// Images, views, samplers and vertex buffers of a device: made once as described, owned by who made them, released once
#include "crgh.hpp"
#include <RenderGraph/RunnableGraph.hpp>
using namespace h;
namespace
{
	uint64_t val( Rec const & r, char const * n ){ return r.get( n ); }
	std::vector< Rec > of( char const * fn )
	{
		std::vector< Rec > r;
		for ( auto & e : world().trace ) if ( e.fn == fn ) r.push_back( e );
		return r;
	}
	struct Named
	{
		Ctx & c;
		void note( char const * k, std::string const & v ){ c.note( k, v ); }
		void require( std::string const & what, bool ok ){ c.require( ok, what ); }
		template< typename A, typename B > void eq( std::string const & what, A const & a, B const & b ){ c.eq( uint64_t( a ), uint64_t( b ), what ); }
	};
	struct Img { crg::ImageId id; VkImage made{}; int owner{ -1 }; };
	struct View { crg::ImageViewId id; uint32_t image{}; VkImageView made{}; int owner{ -1 }; };
	uint32_t firstType( VkPhysicalDeviceMemoryProperties const & p, uint32_t bits, uint32_t want )
	{
		for ( uint32_t i = 0; i < p.memoryTypeCount; ++i ) if ( ( bits & ( 1u << i ) ) && ( p.memoryTypes[i].propertyFlags & want ) == want ) return i;
		return ~0u;
	}
}
CASE( resources, 1500 )
{
	Named ck{ cx };
	Dev dev;
	dev.ctx.memoryProperties.memoryTypeCount = rng.range( 1, 32 );
	for ( uint32_t i = 0; i < dev.ctx.memoryProperties.memoryTypeCount; ++i ) dev.ctx.memoryProperties.memoryTypes[i].propertyFlags = rng.below( 16 );
	// some devices have no suitable memory at all
	bool poor = rng.chance( 1, 8 );
	if ( poor ) for ( auto & t : dev.ctx.memoryProperties.memoryTypes ) t.propertyFlags &= ~uint32_t( VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT );
	auto & mp = dev.ctx.memoryProperties;
	world().memReq.memoryTypeBits = rng.any32();
	world().memReq.size = rng.range( 1, 100000 );
	{
	crg::ResourceHandler handler;
	uint32_t nCaches = rng.range( 1, 3 );
	std::vector< std::unique_ptr< crg::ContextResourcesCache > > caches;
	for ( uint32_t i = 0; i < nCaches; ++i ) caches.push_back( std::make_unique< crg::ContextResourcesCache >( handler, dev.ctx ) );
	std::vector< Img > imgs; std::vector< View > views;
	std::map< std::pair< uint32_t, std::vector< uint32_t > >, VkSampler > samplers;
	std::vector< std::map< uint32_t, crg::VertexBuffer const * > > quads( nCaches );
	for ( uint32_t i = 0, n = rng.range( 1, 4 ); i < n; ++i )
	{
		crg::ImageData d{ "i" + std::to_string( i ), rng.flip() ? VkImageCreateFlags( VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) : 0u, VkImageType( rng.below( 3 ) ), rng.flip() ? VK_FORMAT_R8G8B8A8_UNORM : VK_FORMAT_D32_SFLOAT
			, VkExtent3D{ uint32_t( rng.range( 1, 64 ) ), uint32_t( rng.range( 1, 64 ) ), uint32_t( rng.range( 1, 8 ) ) }, VkImageUsageFlags( rng.range( 1, 255 ) ), uint32_t( rng.range( 1, 4 ) ), uint32_t( rng.range( 1, 6 ) ), rng.flip() ? VK_SAMPLE_COUNT_1_BIT : VK_SAMPLE_COUNT_4_BIT, rng.flip() ? VK_IMAGE_TILING_OPTIMAL : VK_IMAGE_TILING_LINEAR };
		imgs.push_back( { handler.createImageId( d ) } );
		for ( uint32_t j = 0, m = rng.below( 4 ); j < m; ++j )
		{
			auto id = handler.createViewId( crg::ImageViewData{ "v" + std::to_string( i ) + std::to_string( j ), imgs.back().id, 0, VkImageViewType( rng.below( 7 ) ), d.info.format, VkImageSubresourceRange{ VkImageAspectFlags( rng.range( 1, 3 ) ), uint32_t( rng.below( 4 ) ), uint32_t( rng.range( 1, 4 ) ), uint32_t( rng.below( 6 ) ), uint32_t( rng.range( 1, 6 ) ) } } );
			bool known{};
			for ( auto & v : views ) known = known || v.id.id == id.id;
			if ( !known ) views.push_back( { id, i } );
		}
	}
	auto want = [&]( uint32_t flags ){ return firstType( mp, world().memReq.memoryTypeBits, flags ); };
	// the image and memory of one creation; true when it succeeds
	auto expectImage = [&]( Img & im, int owner, bool failed )
	{
		auto mk = of( "vkCreateImage" );
		ck.eq( "one image is made", uint64_t( mk.size() ), 1 );
		auto & d = im.id.data->info;
		auto & r = mk[0];
		ck.require( "as described", val( r, "flags" ) == d.flags && val( r, "type" ) == uint64_t( d.imageType ) && val( r, "format" ) == uint64_t( d.format ) && val( r, "w" ) == d.extent.width && val( r, "h" ) == d.extent.height && val( r, "d" ) == d.extent.depth
			&& val( r, "mips" ) == d.mipLevels && val( r, "layers" ) == d.arrayLayers && val( r, "usage" ) == d.usage && val( r, "samples" ) == uint64_t( d.samples ) && val( r, "tiling" ) == uint64_t( d.tiling ) );
		if ( failed ) return;
		auto al = of( "vkAllocateMemory" ), bi = of( "vkBindImageMemory" );
		ck.eq( "one memory is made", uint64_t( al.size() ), 1 );
		ck.eq( "of the size required", val( al[0], "size" ), world().memReq.size );
		ck.eq( "of the first suitable type", val( al[0], "type" ), want( VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT ) );
		ck.eq( "bound once", uint64_t( bi.size() ), 1 );
		ck.require( "to its image, from its start", val( bi[0], "image" ) == val( r, "handle" ) && val( bi[0], "memory" ) == val( al[0], "handle" ) && val( bi[0], "offset" ) == 0 );
		im.made = VkImage( val( r, "handle" ) );
		im.owner = owner;
	};
	auto maybeFail = [&]( std::initializer_list< char const * > l ) -> char const *
	{
		world().failAt.clear();
		if ( !rng.chance( 1, 5 ) ) return nullptr;
		auto f = *( l.begin() + rng.below( uint32_t( l.size() ) ) );
		world().failAt[f] = 1;
		return f;
	};
	uint32_t seq{};
	for ( uint32_t step = 0, n = rng.range( 3, 25 ); step < n; ++step )
	{
		uint32_t who = rng.below( nCaches );
		auto & cache = *caches[who];
		world().trace.clear();
		std::map< std::string, uint32_t > before;
		for ( auto k : { "Image", "Memory", "ImageView", "Sampler", "Buffer" } ) before[k] = countAlive( k );
		auto grown = [&]( char const * k, int by ){ ck.eq( std::string( "alive: " ) + k, int64_t( countAlive( k ) ) - int64_t( before[k] ), int64_t( by ) ); };
		switch ( rng.below( 7 ) )
		{
		case 0: case 1:
			{
				auto & im = imgs[rng.below( uint32_t( imgs.size() ) )];
				bool nw = im.owner < 0;
				auto f = maybeFail( { "vkCreateImage", "vkAllocateMemory", "vkBindImageMemory" } );
				bool bad = nw && ( f || want( VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT ) == ~0u );
				ck.note( "image", std::to_string( im.id.id ) + ( f ? std::string( " failing " ) + f : "" ) );
				VkImage got{}; bool threw{};
				try { got = cache.createImage( im.id ); } catch ( std::exception & ) { threw = true; }
				world().failAt.clear();
				ck.eq( "throws exactly when it fails", threw, bad );
				if ( nw ) expectImage( im, int( who ), bad );
				else ck.eq( "nothing is made again", uint64_t( of( "vkCreateImage" ).size() ), 0 );
				if ( !bad ) ck.eq( "the image is returned", H( got ), H( im.made ) );
				grown( "Image", nw && !bad ); grown( "Memory", nw && !bad );
			}
			break;
		case 2: case 3:
			if ( !views.empty() )
			{
				auto & v = views[rng.below( uint32_t( views.size() ) )];
				auto & im = imgs[v.image];
				bool nw = v.owner < 0, nwIm = im.owner < 0;
				auto f = maybeFail( { "vkCreateImage", "vkAllocateMemory", "vkBindImageMemory", "vkCreateImageView" } );
				bool badIm = nwIm && ( ( f && f != std::string( "vkCreateImageView" ) ) || want( VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT ) == ~0u );
				bool bad = badIm || ( nw && f && f == std::string( "vkCreateImageView" ) );
				ck.note( "view", std::to_string( v.id.id ) + ( f ? std::string( " failing " ) + f : "" ) );
				VkImageView got{}; bool threw{};
				try { got = cache.createImageView( v.id ); } catch ( std::exception & ) { threw = true; }
				world().failAt.clear();
				if ( !nw && !nwIm )
				{
					ck.eq( "a view that is there is given", threw, false );
					ck.eq( "nothing is made", uint64_t( of( "vkCreateImageView" ).size() + of( "vkCreateImage" ).size() ), 0 );
					ck.eq( "the view is returned", H( got ), H( v.made ) );
					break;
				}
				if ( nw )
				{
					ck.eq( "throws exactly when it fails", threw, bad );
					if ( nwIm ) expectImage( im, int( who ), badIm );
					else ck.eq( "no other image is made", uint64_t( of( "vkCreateImage" ).size() ), 0 );
					auto mk = of( "vkCreateImageView" );
					ck.eq( "one view is made", uint64_t( mk.size() ), badIm ? 0 : 1 );
					if ( !badIm )
					{
						auto & d = v.id.data->info; auto & r = mk[0];
						ck.require( "as described", val( r, "viewType" ) == uint64_t( d.viewType ) && val( r, "format" ) == uint64_t( d.format ) && val( r, "aspect" ) == d.subresourceRange.aspectMask && val( r, "baseMip" ) == d.subresourceRange.baseMipLevel
							&& val( r, "mips" ) == d.subresourceRange.levelCount && val( r, "baseLayer" ) == d.subresourceRange.baseArrayLayer && val( r, "layers" ) == d.subresourceRange.layerCount );
						ck.eq( "of its image", val( r, "image" ), H( im.made ) );
						if ( !bad ) { v.made = VkImageView( val( r, "handle" ) ); v.owner = int( who ); ck.eq( "the view is returned", H( got ), H( v.made ) ); }
					}
					grown( "ImageView", !bad );
				}
				else if ( nwIm && im.owner < 0 )
				{
					// the view outlived its image, which may be made again for it
					if ( !of( "vkCreateImage" ).empty() ) expectImage( im, int( who ), threw );
				}
				grown( "Image", int( nwIm && im.owner >= 0 ) ); grown( "Memory", int( nwIm && im.owner >= 0 ) );
			}
			break;
		case 4:
			{
				uint32_t k = rng.below( uint32_t( imgs.size() ) );
				auto & im = imgs[k];
				// views go first
				for ( auto & v : views ) if ( v.image == k && v.owner >= 0 ) { world().trace.clear(); ck.require( "own view", caches[uint32_t( v.owner )]->destroyImageView( v.id ) ); ck.eq( "released once", uint64_t( of( "vkDestroyImageView" ).size() ), 1 ); ck.eq( "that view", val( of( "vkDestroyImageView" )[0], "handle" ), H( v.made ) ); v.owner = -1; }
				before["ImageView"] = countAlive( "ImageView" );
				world().trace.clear();
				bool own = im.owner == int( who );
				ck.eq( "says whether it was its own image", cache.destroyImage( im.id ), own );
				ck.eq( "released exactly if its own", uint64_t( of( "vkDestroyImage" ).size() ), own ? 1 : 0 );
				ck.eq( "memory too", uint64_t( of( "vkFreeMemory" ).size() ), own ? 1 : 0 );
				if ( own ) { ck.eq( "that image", val( of( "vkDestroyImage" )[0], "handle" ), H( im.made ) ); im.owner = -1; }
				grown( "Image", own ? -1 : 0 ); grown( "Memory", own ? -1 : 0 );
			}
			break;
		case 5:
			{
				crg::SamplerDesc d{ VkFilter( rng.below( 2 ) ), VkFilter( rng.below( 2 ) ), VkSamplerMipmapMode( rng.below( 2 ) ), VkSamplerAddressMode( rng.below( 2 ) ), VkSamplerAddressMode( rng.below( 2 ) ), VkSamplerAddressMode( rng.below( 2 ) ), float( rng.below( 2 ) ), float( rng.below( 2 ) ), float( rng.below( 2 ) ) };
				std::vector< uint32_t > key{ uint32_t( d.magFilter ), uint32_t( d.minFilter ), uint32_t( d.mipmapMode ), uint32_t( d.addressModeU ), uint32_t( d.addressModeV ), uint32_t( d.addressModeW ), uint32_t( d.mipLodBias ), uint32_t( d.minLod ), uint32_t( d.maxLod ) };
				bool nw = samplers.count( { who, key } ) == 0;
				auto f = maybeFail( { "vkCreateSampler" } );
				VkSampler got{}; bool threw{};
				try { got = cache.createSampler( d ); } catch ( std::exception & ) { threw = true; }
				world().failAt.clear();
				ck.eq( "throws exactly when it fails", threw, nw && f );
				auto mk = of( "vkCreateSampler" );
				ck.eq( "a sampler is made once for a description", uint64_t( mk.size() ), nw ? 1 : 0 );
				if ( nw ) ck.require( "as described", val( mk[0], "mag" ) == key[0] && val( mk[0], "min" ) == key[1] && val( mk[0], "mip" ) == key[2] && val( mk[0], "u" ) == key[3] && val( mk[0], "v" ) == key[4] && val( mk[0], "w" ) == key[5] && val( mk[0], "bias" ) == fbits( d.mipLodBias ) && val( mk[0], "minLod" ) == fbits( d.minLod ) && val( mk[0], "maxLod" ) == fbits( d.maxLod ) );
				if ( !threw ) { if ( nw ) samplers[{ who, key }] = VkSampler( val( mk[0], "handle" ) ); ck.eq( "it is returned", H( got ), H( samplers[{ who, key }] ) ); }
				grown( "Sampler", nw && !threw );
			}
			break;
		case 6:
			{
				bool tex = rng.flip(); crg::Texcoord t{ rng.flip(), rng.flip() };
				uint32_t key = uint32_t( tex ) | uint32_t( t.invertU ) << 1 | uint32_t( t.invertV ) << 2;
				bool nw = quads[who].count( key ) == 0;
				auto f = maybeFail( { "vkCreateBuffer", "vkAllocateMemory", "vkBindBufferMemory" } );
				bool bad = nw && ( f || want( VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT ) == ~0u );
				crg::VertexBuffer const * got{}; bool threw{};
				try { got = &cache.createQuadTriVertexBuffer( tex, t ); } catch ( std::exception & ) { threw = true; }
				world().failAt.clear();
				ck.eq( "throws exactly when it fails", threw, bad );
				grown( "Buffer", nw && !bad ); grown( "Memory", nw && !bad );
				if ( bad ) break;
				if ( nw )
				{
					auto al = of( "vkAllocateMemory" ), bi = of( "vkBindBufferMemory" ), mk = of( "vkCreateBuffer" );
					ck.eq( "three vertices", val( mk[0], "size" ), 48 );
					ck.eq( "of the first type that can be written", val( al[0], "type" ), want( VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT ) );
					ck.eq( "of the size required", val( al[0], "size" ), world().memReq.size );
					ck.require( "bound", bi.size() == 1 && val( bi[0], "buffer" ) == val( mk[0], "handle" ) && val( bi[0], "memory" ) == val( al[0], "handle" ) );
					ck.eq( "positions, and texture coordinates if asked for", uint64_t( got->vertexAttribs.size() ), tex ? 2 : 1 );
					ck.require( "described by its own arrays", got->inputState.pVertexAttributeDescriptions == got->vertexAttribs.data() && got->inputState.vertexAttributeDescriptionCount == got->vertexAttribs.size() && got->inputState.pVertexBindingDescriptions == got->vertexBindings.data() );
					float v[12]; std::memcpy( v, world().mapped[val( al[0], "handle" )].data(), sizeof( v ) );
					float u0 = t.invertU ? 2.f : 0.f, u1 = 2.f - u0, w0 = t.invertV ? 1.f : -1.f, w1 = -w0;
					float e[12]{ -1, -3, u0, w0, -1, 1, u0, w1, 3, 1, u1, w1 };
					ck.require( "a triangle covering the area", std::memcmp( v, e, sizeof( e ) ) == 0 );
					for ( auto & q : quads[who] ) ck.require( "not another one's", q.second != got );
					quads[who][key] = got;
				}
				else ck.require( "the same one", got == quads[who][key] );
			}
			break;
		}
		++seq;
	}
	// each cache gives back what it owns, and only that
	for ( uint32_t w = 0; w < nCaches; ++w )
	{
		world().trace.clear();
		caches[w].reset();
		std::multiset< uint64_t > gone, owned;
		for ( auto & e : of( "vkDestroyImage" ) ) gone.insert( val( e, "handle" ) );
		for ( auto & e : of( "vkDestroyImageView" ) ) gone.insert( val( e, "handle" ) );
		for ( auto & e : of( "vkDestroySampler" ) ) gone.insert( val( e, "handle" ) );
		for ( auto & e : of( "vkDestroyBuffer" ) ) gone.insert( val( e, "handle" ) );
		for ( auto & i : imgs ) if ( i.owner == int( w ) ) owned.insert( H( i.made ) );
		for ( auto & i : views ) if ( i.owner == int( w ) ) owned.insert( H( i.made ) );
		for ( auto & s : samplers ) if ( s.first.first == w ) owned.insert( H( s.second ) );
		ck.eq( "vertex buffers are given back", uint64_t( of( "vkDestroyBuffer" ).size() ), quads[w].size() );
		for ( auto & e : of( "vkDestroyBuffer" ) ) gone.erase( gone.find( val( e, "handle" ) ) );
		ck.require( "what is owned is given back once", gone == owned );
	}
	}
	for ( auto k : { "Image", "Memory", "ImageView", "Sampler", "Buffer" } ) ck.eq( std::string( "left behind: " ) + k, countAlive( k ), 0u );
	ck.require( "no misuse of the device", world().errors.empty() );
}

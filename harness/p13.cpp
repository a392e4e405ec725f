// Generating the mip levels of an image
#include "graphs.hpp"
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
using namespace h;
CASE( mip_levels, 600 )
{
	Dev dev;
	crg::ResourceHandler handler;
	crg::FrameGraph g{ handler, "g" };
	crg::ContextResourcesCache cache{ handler, dev.ctx };
	uint32_t inst = rng.range( 1, 3 ), index = rng.below( inst );
	bool volume = rng.chance( 1, 4 );
	crg::RunnablePass * pass{};
	auto & p = g.createPass( "p", [&]( crg::FramePass const & fp, crg::GraphContext & c, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
	{
		auto r = std::make_unique< crg::GenerateMipmaps >( fp, c, rg, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, crg::ru::Config{ inst }, crg::RunnablePass::GetPassIndexCallback( [&index](){ return index; } ) );
		pass = r.get();
		return r;
	} );
	crg::ImageViewIdArray views;
	for ( uint32_t j = 0, n = rng.flip() ? 1u : inst; j < n; ++j )
	{
		auto m = std::to_string( j );
		uint32_t levels = rng.range( 1, 5 ), lays = volume ? 1u : rng.range( 1, 4 );
		VkFormat f = rng.flip() ? VK_FORMAT_R8G8B8A8_UNORM : VK_FORMAT_D32_SFLOAT;
		crg::ImageData d{ "i" + m, 0, volume ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, f, VkExtent3D{ uint32_t( rng.range( 1, 70 ) ), uint32_t( rng.range( 1, 70 ) ), volume ? uint32_t( rng.range( 1, 20 ) ) : 1u }, VK_IMAGE_USAGE_SAMPLED_BIT, levels, lays };
		auto i = g.createImage( d );
		uint32_t y = rng.below( lays ), ny = rng.range( 1, lays - y );
		views.push_back( g.createView( crg::ImageViewData{ "v" + m, i, 0, volume ? VK_IMAGE_VIEW_TYPE_3D : ny > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D, f, { crg::getAspectMask( f ), 0, levels, y, ny } } ) );
	}
	if ( rng.flip() ) p.addTransferInOutView( views ); else p.addTransferInputView( views );
	auto v = views[views.size() == 1 ? 0 : index];
	if ( rng.flip() ) g.addOutput( v, crg::makeLayoutState( rng.pick( { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL } ) ) );
	bool known = rng.flip();
	auto before = rng.pick( { VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL } );
	if ( known ) g.addInput( v, crg::makeLayoutState( before ) );
	auto & data = *v.data->image.data;
	auto range = v.data->info.subresourceRange;
	uint32_t levels = data.info.mipLevels;
	cx.note( "instances", inst ); cx.note( "index", index ); cx.note( "levels", levels ); cx.note( "layer", range.baseArrayLayer ); cx.note( "layers", range.layerCount );
	cx.note( "w", data.info.extent.width ); cx.note( "h", data.info.extent.height ); cx.note( "d", data.info.extent.depth );
	auto rg = g.compile( dev.ctx );
	crg::RecordContext rc{ cache };
	auto image = H( cache.createImage( v.data->image ) );
	auto wanted = rg->getNextLayoutState( rc, *pass, v );
	world().trace.clear();
	auto cb = VkCommandBuffer( 0x7777 );
	pass->recordCurrentInto( rc, cb );
	// replay the commands: the layout of each level of each layer, and what was written
	std::map< std::pair< uint32_t, uint32_t >, uint64_t > layout; std::map< std::pair< uint32_t, uint32_t >, uint32_t > written, read;
	if ( known ) for ( uint32_t y = range.baseArrayLayer; y < range.baseArrayLayer + range.layerCount; ++y ) for ( uint32_t l = 0; l < levels; ++l ) layout[{ l, y }] = before;
	auto texels = []( uint32_t e, uint32_t l ){ auto r = e >> l; return r ? r : 1u; };
	uint32_t blits{};
	for ( auto & c : world().trace )
	{
		if ( c.fn == "vkCmdPipelineBarrier:image" )
		{
			cx.eq( c.get( "image" ), image, "barriers are on the image of the view" );
			for ( uint64_t l = c.get( "baseMip" ); l < c.get( "baseMip" ) + c.get( "mips" ); ++l )
				for ( uint64_t y = c.get( "baseLayer" ); y < c.get( "baseLayer" ) + c.get( "layers" ); ++y )
				{
					auto k = std::make_pair( uint32_t( l ), uint32_t( y ) );
					if ( layout.count( k ) && c.get( "oldLayout" ) != VK_IMAGE_LAYOUT_UNDEFINED ) cx.eq( c.get( "oldLayout" ), layout[k], "a barrier starts from the layout the level is in" );
					layout[k] = c.get( "newLayout" );
				}
		}
		else if ( c.fn.rfind( "vkCmdBlit", 0 ) == 0 )
		{
			++blits;
			auto to = std::make_pair( uint32_t( c.get( "d.mip" ) ), uint32_t( c.get( "d.baseLayer" ) ) );
			auto from = std::make_pair( to.first - 1u, to.second );
			Rec e{ "vkCmdBlitImage", {} };
			e( "cb", H( cb ) )( "src", image )( "srcLayout", VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL )( "dst", image )( "dstLayout", VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL )( "filter", VK_FILTER_LINEAR );
			auto box = [&]( std::string s, std::pair< uint32_t, uint32_t > k )
			{
				layers( e, s, { range.aspectMask, k.first, k.second, 1u } );
				off( e, s + "0", VkOffset3D{} );
				off( e, s + "1", VkOffset3D{ int32_t( texels( data.info.extent.width, k.first ) ), int32_t( texels( data.info.extent.height, k.first ) ), int32_t( texels( data.info.extent.depth, k.first ) ) } );
			};
			box( "s", from ); box( "d", to );
			cx.eq( std::vector< Rec >{ c }, std::vector< Rec >{ e }, "a level is blitted whole from the one before" );
			if ( layout.count( from ) ) cx.eq( layout[from], VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, "the source level is readable" );
			cx.eq( layout[to], VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, "the destination level is writable" );
			cx.require( to.first == 1 || written[from] == 1, "the source level was made before" );
			++written[to];
		}
	}
	cx.eq( blits, ( levels - 1u ) * range.layerCount, "one blit for each level but the first of each layer" );
	for ( uint32_t y = range.baseArrayLayer; y < range.baseArrayLayer + range.layerCount; ++y )
		for ( uint32_t l = 0; l < levels; ++l )
		{
			auto k = std::make_pair( l, y );
			cx.eq( written[k], l ? 1u : 0u, "each level is made once" );
			if ( wanted.layout != VK_IMAGE_LAYOUT_UNDEFINED )
			{
				if ( layout.count( k ) ) cx.eq( layout[k], wanted.layout, "each level is left in the layout wanted next" );
				cx.eq( rc.getLayoutState( v.data->image, volume ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D, { range.aspectMask, l, 1u, y, 1u } ).layout, wanted.layout, "and known to be" );
			}
		}
}

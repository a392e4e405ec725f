// One pass, several instances of its resources
#include "graphs.hpp"
#include <RenderGraph/WriteDescriptorSet.hpp>
using namespace h;
CASE( instances, 800 )
{
	crg::ResourceHandler handler;
	crg::FrameGraph g{ handler, "g" };
	auto & pass = g.createPass( "p", noRun() );
	uint32_t nv = rng.range( 1, 5 ), nb = rng.range( 1, 5 );
	cx.note( "views", nv ); cx.note( "buffers", nb );
	crg::ImageViewIdArray vs;
	for ( uint32_t k = 0; k < nv; ++k ) vs.push_back( view2D( g, "v" + std::to_string( k ), img2D( g, "i" + std::to_string( k ) ) ) );
	crg::VkBufferArray bs;
	for ( uint32_t k = 0; k < nb; ++k ) bs.push_back( VkBuffer( uint64_t( 0x1000 + k * 16 ) ) );
	pass.addSampledView( vs, 3 );
	VkDeviceSize o = rng.any32(), s = rng.any32();
	bool texel = rng.flip(), uni = rng.flip();
	cx.note( "texel", texel ); cx.note( "uniform", uni );
	auto bv = VkBufferView( uint64_t( 0x99 ) );
	crg::Buffer b{ bs, "b" };
	if ( texel ) uni ? pass.addUniformBufferView( b, bv, 7, o, s ) : pass.addInOutStorageBufferView( b, bv, 7, o, s );
	else uni ? pass.addUniformBuffer( b, 7, o, s ) : pass.addInOutStorageBuffer( b, 7, o, s );
	auto & ai = pass.images[0]; auto & ab = pass.buffers[0];
	cx.eq( ai.getViewCount(), nv, "number of views" ); cx.eq( ab.getBufferCount(), nb, "number of buffers" );
	cx.eq( ai.getBufferCount(), 0u, "buffers of an image" ); cx.eq( ab.getViewCount(), 0u, "views of a buffer" );
	for ( uint32_t k = 0; k < 6; ++k )
	{
		auto n = std::to_string( k );
		if ( nv == 1 || k < nv )
		{
			cx.eq( ai.view( k ).id, vs[nv == 1 ? 0 : k].id, "view of instance " + n );
			cx.eq( ai.imageAttach.view( k ).id, vs[nv == 1 ? 0 : k].id, "image view of instance " + n );
			cx.eq( H( ai.buffer( k ) ), uint64_t( 0 ), "buffer of an image" );
		}
		if ( nb == 1 || k < nb )
		{
			auto e = bs[nb == 1 ? 0 : k];
			cx.eq( ab.buffer( k ), e, "buffer of instance " + n );
			cx.eq( ab.view( k ).id, 0u, "view of a buffer" );
			auto w = ab.getBufferWrite( k );
			cx.eq( w->dstBinding, 7u, "binding written" ); cx.eq( w->descriptorCount, 1u, "count written" ); cx.eq( w->dstArrayElement, 0u, "element written" );
			cx.eq( w->descriptorType, texel ? ( uni ? VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER ) : ( uni ? VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER ), "type written" );
			auto & info = texel ? w.bufferViewInfo : w.bufferInfo;
			cx.eq( info.size(), size_t( 1 ), "buffers written" );
			cx.eq( info[0].buffer, e, "buffer written for instance " + n ); cx.eq( info[0].offset, o, "offset written" ); cx.eq( info[0].range, s, "range written" );
			cx.eq( w.texelBufferView.size(), size_t( texel ? 1 : 0 ), "texel views written" );
			if ( texel ) cx.eq( w.texelBufferView[0], bv, "texel view written" );
		}
	}
}
